
prop('P06','Only complete, parseable messages are acted on',
 'A message from a client or from upstream is answered, forwarded, cached or matched only if it was received completely and its question could be parsed: over TCP exactly as many bytes as its length prefix announces, over UDP exactly the received datagram. Anything else is dropped and the state of an earlier message is never used in its place.',
 ['inputs','fault_sequences'],'every byte sequence and every segmentation of it on both front ends and both upstream transports',
 'tests send whole well-formed messages in one piece',
 ['udpfrontend.c','tcpfrontend.c','udpm.c','tcpm.c','iheader.c'],[('header filling','iheader.c:IHeader_Fill'),('TCP reception','tcpfrontend.c, tcpm.c:TcpM_RecvWrapper')],
 PS+'; received region (start, length, announced length) tracked as linear forms','all paths of the four receiving threads; recv outcomes split into data/closed/error, byte counts symbolic')
prop('P11','Every lock taken is released and never taken twice by one thread',
 'On every path through every thread, including all error paths, each lock that is taken is released before the thread comes back to take it or ends, no lock is released that is not held, and no thread takes a lock it already holds. So no sequence of messages, failures or reloads can leave the program blocked on its own lock.',
 ['inputs','schedules','fault_sequences'],'every path of every thread, all error exits included',
 'error exits between lock and unlock are not reached by tests',
 ['dnscache.c','udpm.c','mmgr.c','filter.c','ipmisc.c','dynamichosts.c','domainstatistic.c','logs.c'],[('locks','common.h, rwlock.h lock macros')],
 'static analysis: bottom-up interprocedural lock-state summaries (path-sensitive) from every thread entry','all functions that reach a lock operation; error paths included; conditions decided syntactically')
prop('P12','Threads take locks in one consistent order',
 'Whenever a thread holds one lock while taking another, directly or through calls, the order is the same everywhere in the program: there is no pair or ring of locks taken in opposite orders by different threads. So threads serving clients, receiving answers, sweeping, logging and reloading cannot block each other for ever.',
 ['schedules'],'every interleaving of all threads',
 'a deadlock needs one specific interleaving of two threads',
 ['dnscache.c','udpm.c','mmgr.c','logs.c','domainstatistic.c','dynamichosts.c'],[('nested locks','mmgr.c:MMgr_Send, udpm.c:SweepTask')],
 'static analysis: lock-order graph over interprocedural lock-state summaries, cycle search','lock identity per variable or structure field; all nestings of the program')
prop('P13','Reloadable and shared data is used only under its lock',
 'The upstream map, address mapping, disabled domains, reloadable hosts, cache contents and the pending queries of a UDP group are read only while their lock is held and changed only while it is held exclusively. A pointer to such data obtained before taking the lock or kept after releasing it is never used.',
 ['schedules','histories'],'every interleaving of queries, answers, sweeps, expiry and reloads',
 'a race shows only under one interleaving, and then usually not as a test failure',
 ['mmgr.c','ipmisc.c','filter.c','dynamichosts.c','dnscache.c','udpm.c'],[('guarded data','mmgr.c:CurModuleMap, ipmisc.c:CurrIpMiscMapping, filter.c:DisabledDomain, dynamichosts.c:MainDynamicContainer, dnscache.c:CacheInfo')],
 'static analysis: guarded-by analysis with value provenance on top of lock-state summaries','every access from code running on a thread; start-up and shutdown code is exempt')
prop('P05','Messages are sent whole, correctly framed and to where they belong',
 'A reply goes to the socket and address its query came from, and a query to its server, from the first byte of the message to its last: over UDP as exactly the message, over TCP preceded by its length in network order, going on with the remaining bytes when only a part could be written. Success is reported only if everything was sent, and the name, type, length and origin kept for a query are those of the message received.',
 ['inputs','fault_sequences'],'every message length and every sequence of complete, partial and failed sends on both front ends and both upstream transports',
 'loopback sends are never partial in the tests and wrong lengths are tolerated by the test client',
 ['iheader.c','tcpm.c','udpm.c','udpfrontend.c','tcpfrontend.c'],[('reply','iheader.c:MsgContext_SendBack'),('TCP upstream','tcpm.c:TcpM_SendWrapper, TcpM_Send_Actual'),('header filling','iheader.c:IHeader_Fill')],
 PS+'; sent region tracked as linear forms, send outcomes split into full/partial/failed','all paths of the writing functions; lengths symbolic; partial sends any number of times')
prop('P31','Internal sockets take messages only from the program itself',
 'The loopback sockets on which threads hand queries and answers to each other are used only if they are bound and also connected to their own address, so that datagrams other programs send to their ports are never taken for internal messages. Whatever the program itself sends to such a socket is sent from that socket, so that it is not ignored.',
 ['inputs','fault_sequences'],'every datagram any local program may send to an internal port, every failure while the sockets are set up',
 'tests do not send to the internal ports',
 ['utils.c','hosts.c','tcpm.c'],[('binder','utils.c:TryBindLocal'),('senders','hosts.c:Hosts_Try, tcpm.c:TcpM_Send')],
 PS+' of the binding function; value-origin check of every internal socket variable and sender','all paths of the binder; all sendto calls of the program')
prop('P07','Every message the program builds is whole and inside its buffer',
 'Whatever names, addresses and record data are put into it, a DNS message the program builds never extends past its buffer: a record that does not fit is refused. A record reported as added has its type, class, time to live, data length and data where the format wants them, its length field equals the data written, and it is counted exactly once in its section; a record that was refused is not counted.',
 ['inputs'],'every name, address, data length and space left, for every kind of record the generator adds',
 'overruns need names and buffers of particular lengths',
 ['dnsgenerator.c','dnsgenerator.h','hostsutils.c','iheader.c'],[('message generator','dnsgenerator.c:DnsGenerator_Init and its methods'),('users','hostsutils.c:HostsUtils_Try, iheader.c:MsgContext_AddFakeEdns')],
 PS+'; write positions as linear forms over buffer, length and string lengths','all methods of the generator with symbolic buffer, length and position; DNSLabelizedName trusted to stay in its text')
prop('P10','No input is written past the buffer meant for it',
 'No message from a client or server, no line of a hosts, group or configuration file and no text derived from them is copied past the end of the buffer that receives it, whatever its length: receiving calls are given no more than the space behind the internal header, recorded message lengths never exceed the space they describe, and text is copied or formatted only where it fits.',
 ['inputs'],'every write of variable or bulk extent into an object whose size the program states',
 'an overrun needs input of one particular length, and often shows no symptom in a test',
 ['udpfrontend.c','tcpfrontend.c','udpm.c','tcpm.c','hosts.c','dnsparser.c','utils.c','iheader.c','readconfig.c'],[('receiving','udpfrontend.c:UdpFrontend_Work, tcpfrontend.c:TcpFrontend_Work, udpm.c:UdpM_Works, tcpm.c:TcpM_Works'),('names','dnsparser.c:DNSGetHostName'),('text','dnsparser.c:GetAllAnswers, utils.c')],
 PS+'; object sizes, string lengths and write extents as linear forms, caller-checked contracts for (buffer, length) parameters','all functions; writes to objects of unknown size are counted but not judged; memory sized at run time only for certain overruns')
prop('P09','Reading a message never goes beyond the bytes that were received',
 'Whatever bytes a client or a server sends, reading the message (its header, its names with their compression pointers, its records and their data) stays inside the bytes that were received: a message shorter than its header is not parsed, a name or record that would extend beyond the end is rejected before it is used, and record data is read only as far as the record says and the message holds. Nothing beyond the message can be disclosed in an answer, stored in the cache or crash the program.',
 ['inputs'],'every message: all lengths, counts, label and pointer bytes, record types and data lengths',
 'an overread needs a message crafted at one particular byte and usually shows no symptom in a test',
 ['dnsparser.c','dnsparser.h','dnsgenerator.c','dnscache.c','ipmisc.c','iheader.c','udpm.c'],[('names','dnsparser.c:DNSGetHostName, DNSCopyLable'),('records','dnsparser.c:DnsSimpleParserIterator_Next'),('record data','dnsparser.c:DnsSimpleParserIterator_ParseData')],
 PS+'; message extents, positions and record extents as linear forms, contracts of the name and record walkers proven at their returns and used at their callers','all functions that touch a parser, iterator or (message, length) pair; reads whose region is not known (3 on this tree, the cache\'s own arena) are counted but not judged')
prop('P17','The cache answers only what was asked and has not expired',
 'A question is answered from the cache only with records whose whole key (name, type and class) equals what was asked, following cached aliases, and, unless the time to live is ignored by configuration, only while the time to live they were stored with has not run out. The time to live answered is what remains of it (or the stored one if ignored), the data answered is exactly the stored data, and an answer is sent only if it has at least one record of the asked type; otherwise the query goes upstream.',
 ['inputs','histories'],'every question, every content and age of the cache',
 'tests ask once or twice within a second: expiry, prefix keys and other classes are not reached',
 ['dnscache.c','cacheht.c'],[('serving','dnscache.c:DNSCache_FetchFromCache, DNSCache_GetByQuestion'),('lookup','dnscache.c:DNSCache_FindFromCache')],
 PS+'; records as symbolic nodes (offset, length, age, time to live), lookup functions summarised by what they guarantee','all paths, with and without IgnoreTTL; memcmp and the hash chain walk are trusted to do what they say')
prop('P18','Only cacheable records are stored, with the right lifetime',
 'A record of an answer is put into the cache only if it is a real record (not the question) of class IN and of a type that can be answered from the cache, under its own name, type and class, complete, with the current time and with exactly the time to live the configuration gives it: that of the answer without a matching rule, the rule\'s value with one, and not at all if that is zero or the rule forbids caching.',
 ['inputs','configurations'],'every answer, every CacheControl/OverrideTTL/MultipleTTL rule',
 'tests cache A records of class IN without rules',
 ['dnscache.c','cachettlcrtl.c'],[('storing','dnscache.c:DNSCache_AddItemsToCache, DNSCache_AddAItemToCache')],
 PS+'; the record, the rule applied and the stored fields related as linear forms','all paths in the configurations plain, CacheParallel and IgnoreTTL; which rule matches a name is not judged')
prop('P19','A cached record comes back as it was stored',
 'For every record type that is stored in the cache there is a way back: the form its data is stored in is the form it is answered from, it is answered with its own type, class, owner name and time to live, and the key it is stored under is formed like the key it is looked up with. No type is stored that cannot be answered, or answered as another type.',
 ['inputs'],'every storable record type, every data',
 'only A and CNAME records are cached in the tests',
 ['dnsparser.c','dnsgenerator.c','dnscache.c'],[('storing form','dnsparser.c:DnsSimpleParserIterator_ToCacheData'),('answering form','dnsgenerator.c:DnsGenerator_Generate')],
 PS+'; storing and answering functions evaluated per record type, their data layouts compared','every type that passes the storing filter; texts are compared by layout, not byte by byte')
prop('P20','Cached records never overlap and leave only after expiring',
 'Every record stored in the cache has space of its own: a new entry starts where the used space ended and extends it by its length, a reused entry has exactly the length needed and is taken out of the free list, nothing is written beyond an entry\'s space, and the entry table never grows into the used space. The expiry task removes only records whose time has run out, under their own index, and gives back only space behind the last entry.',
 ['histories','inputs'],'every sequence of stores, expiries and reuses, every record size and cache size',
 'overlap needs a full or aged cache',
 ['dnscache.c','cacheht.c','array.c'],[('allocation','dnscache.c:DNSCache_GetAvailableChunk, cacheht.c:CacheHT_FindUnusedNode'),('expiry','dnscache.c:DNSCacheTTLCountdown_Task')],
 PS+'; offsets, chunk lengths and the end of the used space as linear forms, one allocation or removal from an arbitrary state','all paths of storing, allocating and expiring; the well-formedness of the chains themselves is not judged')
prop('P21','An existing cache file is reused only if it fits',
 'The contents of an existing cache file are used only if reloading was asked for and the file was written by a compatible version with the same size; a file that was to be reused but does not fit is overwritten only if that was permitted, and otherwise left as it is. The cache is used only after it has been set up, and a new one is marked with version and size.',
 ['histories','configurations'],'every cache file and every combination of MemoryCache, ReloadCache, OverwriteCache and file presence',
 'tests use memory caches or fresh files',
 ['dnscache.c'],[('set-up','dnscache.c:DNSCache_Init, InitCacheInfo, IsReloadable')],
 PS+' over all configuration values','all paths of the initialisation; the contents of a fitting file are trusted')
prop('P22','What is acquired is released on every path',
 'Every block of memory, file, socket and container the program acquires is, on every path through the function that acquires it including all failures, either released, handed to a longer-lived object or given to the caller, so that repeated queries, updates and reloads do not exhaust memory or descriptors. Every member that is acquired for an object is released by the functions which tear that object down.',
 ['histories','fault_sequences'],'every sequence of queries, reloads and failures of the calls that acquire something',
 'leaks show only after very many repetitions or when a system call fails',
 ['goodiplist.c','hosts.c','tcpm.c','udpm.c','mmgr.c','dynamichosts.c','dnscache.c','utils.c','downloader.c','socketpuller.c','stringlist.c','stringchunk.c'],[('modules','tcpm.c:TcpM_Init, TcpM_Cleanup; udpm.c:UdpM_Cleanup; mmgr.c:Modules_Load'),('probing','goodiplist.c:CheckAList'),('aliases','hosts.c:Hosts_SocketLoop')],
 PS+'; acquired things as typestates (held, handed on, released), function summaries for releases, contents and keeping; table of members acquired against members released','all paths of all functions that acquire; objects handed to another thread are followed only through the tear-down table; abnormal program end is not judged')
prop('P23','Nothing is used after its release or before it was acquired',
 'No memory, file, socket or container is used, stored or returned after it was released, none is released twice, and the result of an acquisition that failed is never used as if it had succeeded. What the elements of a list point at is released only by the list that owns it.',
 ['histories','fault_sequences'],'every path, including every failure of the calls that acquire something',
 'double releases and uses after release need particular failures or reloads and often show no symptom',
 ['tcpm.c','udpm.c','mmgr.c','cacheht.c','dynamichosts.c','utils.c','socketpuller.c','stablebuffer.c'],[('modules','tcpm.c:TcpM_Cleanup, TcpM_Init; mmgr.c:Modules_Free'),('cache','cacheht.c:CacheHT_Free')],
 PS+'; acquired and released things as typestates, function summaries for releasing, failed acquisitions as separate paths, ownership of list elements from what their makers store','all paths of all functions that acquire or release; use in another thread after release is not judged here')
prop('P24','Every configuration option is known, typed, merged and used as documented',
 'Every option the documentation names and every option the program uses is registered before the configuration is read, with the type it is read back with and with the documented default; a given value is taken over by that type and merged with an earlier one as the option\'s strategy says (replace, append, or discard the default); and every registered option has an effect. So no setting is silently ignored, misread or lost because it was given twice.',
 ['configurations'],'every option, every value and every repetition of an option in a configuration file',
 'tests set a few options once each',
 ['main.c','readconfig.c','default.config','mmgr.c','udpfrontend.c','tcpfrontend.c','dnscache.c','cachettlcrtl.c','filter.c','hosts.c','dynamichosts.c','ipmisc.c'],[('registration','main.c:EnvironmentInit'),('taking over','readconfig.c:ConfigRead, ParseString, ParseBoolean, ParseInt32')],
 'static analysis: cross-check of the option tables of registration, use and documentation; '+PS.split(': ',1)[-1]+' of the value parsers','all calls of the configuration interface; option names resolved from literals and tables; the effect of an option beyond reaching the code that uses it is judged by the other properties')
prop('P33','Text from outside is never interpreted as a format',
 'Every format given to a printing or scanning function, directly or through the program\'s own logging, is a literal of the program, and the arguments given with it are as many as it takes and of the types it names. So no name, address, line or file content can be interpreted as a format, read arguments that are not there or write to memory.',
 ['inputs'],'every text that is logged, shown, stored or parsed',
 'a wrong format shows only for texts with % or on paths that tests never log',
 ['logs.c','domainstatistic.c','utils.c','dnsparser.c','addresslist.c','hostscontainer.c','cachettlcrtl.c','goodiplist.c','filter.c','readconfig.c','main.c'],[('logging','logs.c:Log_Print'),('formats','all callers of printf-like and scanf-like functions')],
 'static analysis: value-origin check of every format argument, format/argument type agreement on the intermediate representation','every printing and scanning call; signedness is not judged')

prop('P15','A reload takes effect as a whole or not at all',
 'When the hosts file, disabled list, address mapping or server groups are loaded again, every configured entry and every line of the listed files is put into the new data before it takes the place of the old, the change happens in one step, and a load that fails leaves the old data in use. A finished download leads to a reload of the hosts file and of each of the others whose reload option is set, and of no other.',
 ['configurations','fault_sequences','histories'],'every configuration, every content of the listed files, every failure while loading, any number of reloads',
 'tests load one small configuration once; a lost entry shows only for certain lines, failures or second loads',
 ['filter.c','ipmisc.c','dynamichosts.c','mmgr.c','readline.c'],[('loading and publication','filter.c:DisabledDomain_Init, ipmisc.c:IpMiscMapping_Load, dynamichosts.c:DynamicHosts_Load, mmgr.c:Modules_Load'),('reload task','dynamichosts.c:GetHostsFromInternet_Thread')],
 'static analysis: path-sensitive interprocedural typestate of configured sources, iterators, file lines and publication','all paths of the loaders; outcomes of reading (line, too long, end), of opening, of group set-up split; memory exhaustion paths are only required to keep the old data')
prop('P16','Retired server groups are released only after their threads ended',
 'When reloading replaces the server groups, the old ones are told to end and are released only after a round in which none of their threads was found running; groups of a failed load that were started already are treated the same. A thread marks itself as ended as its last use of its group, on every path out of it, and looks whether it is to end after every wait.',
 ['schedules','histories'],'every interleaving of the group threads with the reload, any number of reloads',
 'needs a reload at the moment a group thread is busy',
 ['mmgr.c','udpm.c','tcpm.c'],[('release of retired groups','mmgr.c:Modules_SafeCleanup'),('thread end','udpm.c:UdpM_Cleanup, UdpM_Sweep_Thread, tcpm.c:TcpM_Cleanup')],
 'static analysis: typestate of thread-end marks and of the release loop, cycle search in the control flow graph','all paths of the three group threads and of the release; memory ordering between processors is not modelled')
prop('P08','Every step of the work ends: no loop can repeat itself for ever',
 'Whatever a message, a configuration line or a hosts entry says, processing it ends. Every round of every loop changes something that decides whether there is another round (a position moves, a list entry is left behind, a counter counts, new input is taken), also on the ways that skip or fail early; a compression pointer in a name is followed only to a place strictly before itself; and aliases, in the hosts entries or in the cache, that lead back to themselves are not followed for ever.',
 ['inputs','configurations'],'every loop of the program and every way through one round of it, every message and alias chain',
 'an endless loop needs one particular malformed message, alias or failing step, after which the resolver answers nobody',
 ['*.c'],[('loops','all functions'),('compression pointers','dnsparser.c:DNSGetHostName, DNSCopyLable'),('alias chains','hosts.c:Hosts_Try, dnscache.c:DNSCache_GetByQuestion')],
 'static analysis: natural loops of the compiled program, enumeration of the ways through one round, dependence of the loop exits on what a round changes; difference of positions for compression pointers; alias chains: a bound between a question and the same question asked again',
 'every loop and every way through one round up to a limit (the number of loops beyond it is reported); that an advance is repeated often enough to end is not shown, nor termination of recursion through the network other than hosts aliases')
prop('P26','A silent or slow peer never holds up the others',
 'A thread that serves several clients or servers never waits for a single one of them without limit. It receives from a socket, or accepts a connection, only when a wait for the sockets just reported that something is there, or when the socket is one that never blocks; connections to servers are set up on sockets that never block; and a connection accepted from a client is set not to block before it is served, so that a client that sends nothing, or does not take its replies, holds up nobody else.',
 ['schedules','inputs','fault_sequences'],'every order in which peers connect, send parts of messages, stay silent or stop reading',
 'needs a client or server that behaves badly in the middle of an exchange while others are being served',
 ['tcpfrontend.c','udpfrontend.c','tcpm.c','udpm.c','hosts.c','goodiplist.c','iheader.c','utils.c'],[('clients','tcpfrontend.c:TcpFrontend_Work, udpfrontend.c:UdpFrontend_Work'),('servers','tcpm.c:TcpM_Connect_Addr, TcpM_RecvWrapper, TcpM_Works, udpm.c:UdpM_Works'),('internal','hosts.c:Hosts_SocketLoop, goodiplist.c:CheckAList')],
 'static analysis: path-sensitive typestate of sockets (reported ready, never blocking, accepted and not prepared)','all paths of every function of a thread that receives, accepts or connects; functions given a socket are judged inside their callers; that sockets of one source file set up without blocking are the ones received from there is by provenance per file; the length of bounded waits is not judged')
