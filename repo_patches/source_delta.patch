From 260d044b60a7ccab3ba68e070da12897bdff1d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:21 +0000
Subject: [PATCH 01/36] fix: drop packets whose DNS content cannot be parsed

IHeader_Fill's result was ignored, so a short or malformed packet was
processed with the header (client address, name, length) of the packet
received before it, e.g. a second reply was sent to the previous client.
A packet without a question left the previous name in place as well.
---
 iheader.c     |  7 +++++++
 tcpfrontend.c |  8 ++++----
 tcpm.c        | 23 ++++++++++++++---------
 udpfrontend.c | 23 ++++++++++++++---------
 udpm.c        | 23 ++++++++++++++---------
 5 files changed, 53 insertions(+), 31 deletions(-)

diff --git a/iheader.c b/iheader.c
index 497cd01..e188c4d 100755
--- a/iheader.c
+++ b/iheader.c
@@ -30,6 +30,7 @@ int IHeader_Fill(IHeader *h,
 {
     DnsSimpleParser p;
     DnsSimpleParserIterator i;
+    BOOL HasQuestion = FALSE;
 
     h->Parent = NULL;
     h->RequestTcp = FALSE;
@@ -63,6 +64,7 @@ int IHeader_Fill(IHeader *h,
             StrToLower(h->Domain);
             h->HashValue = HASH(h->Domain, 0);
             h->Type = (DNSRecordType)DNSGetRecordType(DNSJumpHeader(DnsEntity));
+            HasQuestion = TRUE;
             break;
 
         case DNS_RECORD_PURPOSE_ADDITIONAL:
@@ -77,6 +79,11 @@ int IHeader_Fill(IHeader *h,
         }
     }
 
+    if( !HasQuestion )
+    {
+        return -84;
+    }
+
     h->ReturnHeader = ReturnHeader;
 
     if( BackAddress != NULL )
diff --git a/tcpfrontend.c b/tcpfrontend.c
index c8a0693..e1b2e88 100644
--- a/tcpfrontend.c
+++ b/tcpfrontend.c
@@ -89,8 +89,7 @@ TcpFrontend_Work(void *Unused)
             if( TCPLength <= LEFT_LENGTH )
             {
                 RecvState = recv(sock_c, Entity, TCPLength, 0);
-                if( RecvState == TCPLength )
-                {
+                if( RecvState == TCPLength &&
                     IHeader_Fill(Header,
                                  FALSE,
                                  Entity,
@@ -99,8 +98,9 @@ TcpFrontend_Work(void *Unused)
                                  sock_c,
                                  ClientAddr->family,
                                  Agent
-                                 );
-
+                                 )
+                    == 0 )
+                {
                     MMgr_Send(ReceiveBuffer, SOCKET_CONTEXT_LENGTH);
 
                     if( IsNewConnected )
diff --git a/tcpm.c b/tcpm.c
index d0d4ed7..21f6825 100755
--- a/tcpm.c
+++ b/tcpm.c
@@ -674,15 +674,20 @@ TcpM_Works(TcpM *m)
             TcpCtx->MsgCtx = NULL;
             p2->Add(p2, s, TcpCtx, sizeof(TcpContext));
 
-            IHeader_Fill(Header,
-                         FALSE,
-                         Entity,
-                         State,
-                         NULL,
-                         INVALID_SOCKET,
-                         AF_UNSPEC,
-                         NULL
-                         );
+            if( IHeader_Fill(Header,
+                             FALSE,
+                             Entity,
+                             State,
+                             NULL,
+                             INVALID_SOCKET,
+                             AF_UNSPEC,
+                             NULL
+                             )
+                != 0 )
+            {
+                INFO("Invalid data received from the upstream server.\n");
+                continue;
+            }
 
             switch( IPMiscMapping_Process(MsgCtx) )
             {
diff --git a/udpfrontend.c b/udpfrontend.c
index b4ef03e..28f44de 100755
--- a/udpfrontend.c
+++ b/udpfrontend.c
@@ -90,15 +90,20 @@ UdpFrontend_Work(void *Unused)
             continue;
         }
 
-        IHeader_Fill(Header,
-                     FALSE,
-                     Entity,
-                     RecvState,
-                     IncomingAddress,
-                     sock,
-                     *f,
-                     Agent
-                     );
+        if( IHeader_Fill(Header,
+                         FALSE,
+                         Entity,
+                         RecvState,
+                         IncomingAddress,
+                         sock,
+                         *f,
+                         Agent
+                         )
+            != 0 )
+        {
+            INFO("Invalid data received from UDP client %s.\n", Agent);
+            continue;
+        }
 
         MMgr_Send(ReceiveBuffer, SOCKET_CONTEXT_LENGTH);
     }
diff --git a/udpm.c b/udpm.c
index 627f56b..d4af609 100755
--- a/udpm.c
+++ b/udpm.c
@@ -189,15 +189,20 @@ UdpM_Works(UdpM *m)
         m->CountOfTimeout = 0;
 
         /* Fill IHeader */
-        IHeader_Fill(Header,
-                     FALSE,
-                     Entity,
-                     RecvState,
-                     NULL,
-                     INVALID_SOCKET,
-                     AF_UNSPEC,
-                     NULL
-                     );
+        if( IHeader_Fill(Header,
+                         FALSE,
+                         Entity,
+                         RecvState,
+                         NULL,
+                         INVALID_SOCKET,
+                         AF_UNSPEC,
+                         NULL
+                         )
+            != 0 )
+        {
+            INFO("Invalid data received from the upstream server.\n");
+            continue;
+        }
 
         switch( IPMiscMapping_Process(MsgCtx) )
         {
-- 
2.43.0


From 3a49bd5420360a8bb849e3baaf73312f2a9419a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:21 +0000
Subject: [PATCH 02/36] fix: use the whole TCP response length, not that of its
 last segment

A response received in more than one segment was parsed and sent back
with the length of the last segment only.
---
 tcpm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tcpm.c b/tcpm.c
index 21f6825..d4f79d8 100755
--- a/tcpm.c
+++ b/tcpm.c
@@ -677,7 +677,7 @@ TcpM_Works(TcpM *m)
             if( IHeader_Fill(Header,
                              FALSE,
                              Entity,
-                             State,
+                             PartialData - Entity,
                              NULL,
                              INVALID_SOCKET,
                              AF_UNSPEC,
-- 
2.43.0


From 6afc2592389f91f2b467936fdd035048600d88b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:21 +0000
Subject: [PATCH 03/36] fix: check the space left before copying raw data into
 a DNS message

DnsGenerator_RawData and DnsGenerator_Init copied their source without
comparing its length with the room in the target buffer.
---
 dnsgenerator.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/dnsgenerator.c b/dnsgenerator.c
index 7089b99..0b81fe9 100755
--- a/dnsgenerator.c
+++ b/dnsgenerator.c
@@ -576,6 +576,11 @@ static int DnsGenerator_RawData(DnsGenerator *g,
         return -5;
     }
 
+    if( LEFT_LENGTH(g) < DataLength )
+    {
+        return -6;
+    }
+
     memcpy(g->Itr, Data, DataLength);
     g->Itr += DataLength;
 
@@ -909,6 +914,11 @@ int DnsGenerator_Init(DnsGenerator *g,
             }
         }
 
+        if( SourceLength > BufferLength )
+        {
+            return -3;
+        }
+
         memmove(g->Buffer, CopyFrom, SourceLength);
         g->Itr = g->Buffer + SourceLength;
 
-- 
2.43.0


From bad00e01b96cfb90c4106b8fed08b602115bb813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:30 +0000
Subject: [PATCH 04/36] fix: reject DNS names that loop or leave the message

A compression pointer that refers to itself (or forwards in a circle)
made DNSGetHostName and DNSCopyLable loop forever: one such packet, from
a client or an upstream server, hung the thread. Names were also followed
past the end of the message.
---
 dnsgenerator.c | 29 +++++++++++++++++++++++------
 dnsparser.c    | 28 +++++++++++++++++++++++-----
 dnsparser.h    |  2 +-
 3 files changed, 47 insertions(+), 12 deletions(-)

diff --git a/dnsgenerator.c b/dnsgenerator.c
index 0b81fe9..9dc9144 100755
--- a/dnsgenerator.c
+++ b/dnsgenerator.c
@@ -608,15 +608,22 @@ static int DnsGenerator_CopyNamePart(DnsGenerator *g,
                                      DnsSimpleParserIterator *i
                                      )
 {
-    if( LEFT_LENGTH(g) < DNSCopyLable(i->Parser->RawDns,
-                                      NULL,
-                                      i->CurrentPosition)
-      )
+    int LabelLength = DNSCopyLable(i->Parser->RawDns,
+                                   i->Parser->RawDnsLength,
+                                   NULL,
+                                   i->CurrentPosition
+                                   );
+
+    if( LabelLength < 0 || LEFT_LENGTH(g) < LabelLength )
     {
         return -1;
     }
 
-    g->Itr += DNSCopyLable(i->Parser->RawDns, g->Itr, i->CurrentPosition);
+    g->Itr += DNSCopyLable(i->Parser->RawDns,
+                           i->Parser->RawDnsLength,
+                           g->Itr,
+                           i->CurrentPosition
+                           );
 
     return 0;
 }
@@ -661,10 +668,16 @@ static int DnsGenerator_CopyCName(DnsGenerator *g, DnsSimpleParserIterator *i)
     }
 
     CNameLabelLength = DNSCopyLable(i->Parser->RawDns,
+                                    i->Parser->RawDnsLength,
                                     NULL,
                                     i->RowData(i)
                                     );
 
+    if( CNameLabelLength < 0 )
+    {
+        return -7;
+    }
+
     if( DnsGenerator_16Uint(g, CNameLabelLength) != 0 )
     {
         return -5;
@@ -675,7 +688,11 @@ static int DnsGenerator_CopyCName(DnsGenerator *g, DnsSimpleParserIterator *i)
         return -6;
     }
 
-    g->Itr += DNSCopyLable(i->Parser->RawDns, g->Itr, i->RowData(i));
+    g->Itr += DNSCopyLable(i->Parser->RawDns,
+                           i->Parser->RawDnsLength,
+                           g->Itr,
+                           i->RowData(i)
+                           );
 
     SET_16_BIT_U_INT(g->NumberOfRecords,
                      GET_16_BIT_U_INT(g->NumberOfRecords) + 1
diff --git a/dnsparser.c b/dnsparser.c
index 445e18c..986bf55 100755
--- a/dnsparser.c
+++ b/dnsparser.c
@@ -29,15 +29,20 @@ int DNSGetHostName(const char *DNSBody, int DNSBodyLength, const char *NameStart
             {
                 break;
             }
+            if( NameItr + 1 >= DNSBody + DNSBodyLength )
+            {
+                return -1;
+            }
             LabelPointer = DNSLabelGetPointer(NameItr);
-            if( LabelPointer > DNSBodyLength )
+            /* Only backwards, or it could be endless. */
+            if( LabelPointer >= NameItr - DNSBody )
             {
                 return -1;
             }
-            NameItr = DNSBody + DNSLabelGetPointer(NameItr);
+            NameItr = DNSBody + LabelPointer;
         } else {
             if( DNSBody != NULL &&
-                NameItr + LabelCount > DNSBody + DNSBodyLength
+                NameItr + LabelCount + 1 >= DNSBody + DNSBodyLength
                 )
             {
                 return -1;
@@ -158,15 +163,28 @@ char *GetAllAnswers(char *DNSBody, int DNSBodyLength, char *Buffer, int BufferLe
     return Buffer;
 }
 
-/* Full label length returned, including terminated-zero */
-int DNSCopyLable(const char *DNSBody, char *here, const char *src)
+/* Full label length returned, including terminated-zero. Negative for a malformed name */
+int DNSCopyLable(const char *DNSBody, int DNSBodyLength, char *here, const char *src)
 {
     int FullLength = 0;
 
     while( TRUE )
     {
+        if( src >= DNSBody + DNSBodyLength || FullLength >= 255 )
+        {
+            return -1;
+        }
+
         if( DNSIsLabelPointerStart(GET_8_BIT_U_INT(src)) )
         {
+            /* Only backwards, or it could be endless. */
+            if( src + 1 >= DNSBody + DNSBodyLength ||
+                DNSLabelGetPointer(src) >= src - DNSBody
+                )
+            {
+                return -1;
+            }
+
             src = DNSBody + DNSLabelGetPointer(src);
         } else {
             ++FullLength;
diff --git a/dnsparser.h b/dnsparser.h
index 2d1f705..26cbba9 100755
--- a/dnsparser.h
+++ b/dnsparser.h
@@ -141,7 +141,7 @@ typedef struct _DNSHeader{
 /* Convert a DNS message to text */
 char *GetAllAnswers(char *DNSBody, int DNSBodyLength, char *Buffer, int BufferLength);
 
-int DNSCopyLable(const char *DNSBody, char *here, const char *src);
+int DNSCopyLable(const char *DNSBody, int DNSBodyLength, char *here, const char *src);
 
 /**
   New Implementation
-- 
2.43.0


From 501b6766c9b7dfaf18baa0ba2bd79208bd946587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:30 +0000
Subject: [PATCH 05/36] fix: stop the record iterator at the end of the message

The type, class, TTL and data of a record were read without checking
that they lie inside the received message.
---
 dnsparser.c | 33 ++++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/dnsparser.c b/dnsparser.c
index 986bf55..17612ec 100755
--- a/dnsparser.c
+++ b/dnsparser.c
@@ -383,6 +383,8 @@ static DnsRecordPurpose DnsSimpleParserIterator_DeterminePurpose(
 
 static char *DnsSimpleParserIterator_Next(DnsSimpleParserIterator *i)
 {
+    int LeftLength, NameLength;
+
     if( i->CurrentPosition == NULL )
     {
         i->CurrentPosition = i->Parser->RawDns + DNS_HEADER_LENGTH;
@@ -420,9 +422,10 @@ static char *DnsSimpleParserIterator_Next(DnsSimpleParserIterator *i)
         return NULL;
     }
 
-    if( (i->RecordPosition > i->AllRecordCount) ||
-        (i->CurrentPosition - i->Parser->RawDns > i->Parser->RawDnsLength)
-      )
+    LeftLength = i->Parser->RawDnsLength -
+                 (i->CurrentPosition - i->Parser->RawDns);
+
+    if( (i->RecordPosition > i->AllRecordCount) || LeftLength <= 0 )
     {
         i->CurrentPosition = NULL;
         i->RecordPosition = 0;
@@ -431,6 +434,23 @@ static char *DnsSimpleParserIterator_Next(DnsSimpleParserIterator *i)
 
     /* Update record informations */
     i->Purpose =  DnsSimpleParserIterator_DeterminePurpose(i, i->RecordPosition);
+
+    /* The record must be entirely inside the message. */
+    NameLength = DNSGetHostName(i->Parser->RawDns,
+                                i->Parser->RawDnsLength,
+                                i->CurrentPosition,
+                                NULL,
+                                0
+                                );
+    if( NameLength < 0 ||
+        NameLength + (i->Purpose == DNS_RECORD_PURPOSE_QUESTION ? 4 : 10) > LeftLength
+      )
+    {
+        i->CurrentPosition = NULL;
+        i->RecordPosition = 0;
+        return NULL;
+    }
+
     i->Type = DNSGetRecordType(i->CurrentPosition);
     i->Klass = DNSGetRecordClass(i->CurrentPosition);
 
@@ -442,6 +462,13 @@ static char *DnsSimpleParserIterator_Next(DnsSimpleParserIterator *i)
         if( i->Purpose != DNS_RECORD_PURPOSE_QUESTION )
         {
             i->DataLength = DNSGetResourceDataLength(i->CurrentPosition);
+
+            if( NameLength + 10 + i->DataLength > LeftLength )
+            {
+                i->CurrentPosition = NULL;
+                i->RecordPosition = 0;
+                return NULL;
+            }
         }
 
         return i->CurrentPosition;
-- 
2.43.0


From 8b53fa1f70fab2f791fbdcd59b7a17ae9c821a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:24 +0000
Subject: [PATCH 06/36] fix: answer cached PTR and NS records with their own
 type

They were generated as CNAME records when served from the cache.
---
 dnsgenerator.c | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/dnsgenerator.c b/dnsgenerator.c
index 9dc9144..50cd1eb 100755
--- a/dnsgenerator.c
+++ b/dnsgenerator.c
@@ -268,11 +268,13 @@ static int DnsGenerator_Question(DnsGenerator *g,
     return 0;
 }
 
-static int DnsGenerator_CName(DnsGenerator *g,
-                              const char *Name,
-                              const char *CName,
-                              int Ttl
-                              )
+/* Records of which the data is a name */
+static int DnsGenerator_NameRecord(DnsGenerator *g,
+                                   const char *Name,
+                                   DNSRecordType Type,
+                                   const char *CName,
+                                   int Ttl
+                                   )
 {
     DnsRecordPurpose p = DnsGenerator_CurrentPurpose(g);
 
@@ -289,7 +291,7 @@ static int DnsGenerator_CName(DnsGenerator *g,
         return -1;
     }
 
-    if( DnsGenerator_16Uint(g, DNS_TYPE_CNAME) != 0 )
+    if( DnsGenerator_16Uint(g, Type) != 0 )
     {
         return -2;
     }
@@ -321,6 +323,15 @@ static int DnsGenerator_CName(DnsGenerator *g,
     return 0;
 }
 
+static int DnsGenerator_CName(DnsGenerator *g,
+                              const char *Name,
+                              const char *CName,
+                              int Ttl
+                              )
+{
+    return DnsGenerator_NameRecord(g, Name, DNS_TYPE_CNAME, CName, Ttl);
+}
+
 static int DnsGenerator_MX(DnsGenerator *g,
                            const char *Name,
                            int Preference,
@@ -876,7 +887,7 @@ static int DnsGenerator_Generate(DnsGenerator *g,
     case DNS_TYPE_CNAME:
     case DNS_TYPE_PTR:
     case DNS_TYPE_NS:
-        Ret = g->CName(g, Name, Data, Ttl);
+        Ret = DnsGenerator_NameRecord(g, Name, Type, Data, Ttl);
         break;
 
     case DNS_TYPE_MX:
-- 
2.43.0


From 0c0d8c724ecf11c2e78b53c06de1be5f7b1993fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:24 +0000
Subject: [PATCH 07/36] fix: do not hang on queries with additional records but
 no EDNS

With AP on, a query that already has an additional record which is not
an OPT record made MsgContext_AddFakeEdns loop forever.
---
 iheader.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/iheader.c b/iheader.c
index e188c4d..9e964fa 100755
--- a/iheader.c
+++ b/iheader.c
@@ -139,7 +139,10 @@ int MsgContext_AddFakeEdns(MsgContext *MsgCtx, int BufferLength)
         return -125;
     }
 
-    while( g.NextPurpose(&g) != DNS_RECORD_PURPOSE_ADDITIONAL );
+    if( DNSGetAdditionalCount(IHEADER_TAIL(h)) == 0 )
+    {
+        while( g.NextPurpose(&g) != DNS_RECORD_PURPOSE_ADDITIONAL );
+    }
 
     g.EDns(&g, 1280);
 
-- 
2.43.0


From 6971791b30a71b875c1aa77f2ba4d491bf7c5311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:24 +0000
Subject: [PATCH 08/36] fix: free the new IP mapping, not the live one, when
 loading fails

---
 ipmisc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ipmisc.c b/ipmisc.c
index ce04ef3..23f6910 100755
--- a/ipmisc.c
+++ b/ipmisc.c
@@ -350,7 +350,7 @@ static int IpMiscMapping_Load(void)
     return 0;
 
 EXIT_2:
-    IPMisc_Free(CurrIpMiscMapping);
+    IPMisc_Free(IpMiscMapping);
 EXIT_1:
     SafeFree(IpMiscMapping);
 
-- 
2.43.0


From aa1c94d439c49ed4517d358e122c519ac691757f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:24 +0000
Subject: [PATCH 09/36] fix: do not free modules that are running when
 reloading groups fails

If one server group failed to load, the modules of the groups loaded
before it were freed while their threads were running. Members of the
new map were also read uninitialized on early failures.
---
 mmgr.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/mmgr.c b/mmgr.c
index 6d93aa3..0f8ae89 100755
--- a/mmgr.c
+++ b/mmgr.c
@@ -115,8 +115,6 @@ static int Udp_Init_Core(ModuleMap *ModuleMap,
         return -101;
     }
 
-    NewM->ModuleName = "UDP";
-
     strncpy(ParallelOnOff, Parallel, sizeof(ParallelOnOff));
     ParallelOnOff[sizeof(ParallelOnOff) - 1] = '\0';
     StrToLower(ParallelOnOff);
@@ -134,6 +132,7 @@ static int Udp_Init_Core(ModuleMap *ModuleMap,
         return -128;
     }
 
+    NewM->ModuleName = "UDP";
     NewM->Send = (SendFunc)(NewM->ModuleUnion.Udp.Send);
 
     if( MappingAModule(ModuleMap, NewM, DomainList) != 0 )
@@ -203,8 +202,6 @@ static int Tcp_Init_Core(ModuleMap *ModuleMap,
         return -192;
     }
 
-    NewM->ModuleName = "TCP";
-
     strncpy(OptionString, Parallel, sizeof(OptionString));
     OptionString[sizeof(OptionString) - 1] = '\0';
     StrToLower(OptionString);
@@ -231,6 +228,7 @@ static int Tcp_Init_Core(ModuleMap *ModuleMap,
         return -180;
     }
 
+    NewM->ModuleName = "TCP";
     NewM->Send = (SendFunc)(NewM->ModuleUnion.Tcp.Send);
 
     if( MappingAModule(ModuleMap, NewM, DomainList) != 0 )
@@ -666,6 +664,8 @@ static int Modules_Load(ConfigFileInfo *ConfigInfo)
         return -1;
     }
 
+    NewModuleMap->Modules = NULL;
+    NewModuleMap->ModuleArray = NULL;
     NewModuleMap->Distributor = NULL;
     if( InitChunk(&(NewModuleMap->Distributor)) != 0 )
     {
@@ -709,7 +709,11 @@ static int Modules_Load(ConfigFileInfo *ConfigInfo)
 
     if (ret)
     {
-        goto ModulesFree;
+        /* Some of the modules may be running already. */
+        CREATE_THREAD(Modules_SafeCleanup, NewModuleMap, th);
+        DETACH_THREAD(th);
+        INFO("Loading GroupFile(s) failed.\n");
+        return ret;
     }
 
     RWLock_WrLock(ModulesLock);
-- 
2.43.0


From 56b257baf2f4de14831ccf928cf3f1516b3959df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:46 +0000
Subject: [PATCH 10/36] fix: keep own copies of the server names

The names given by a group file were freed after loading it, but used by
the modules afterwards.
---
 tcpm.c | 6 ++++--
 tcpm.h | 4 ++--
 udpm.c | 3 ++-
 udpm.h | 2 +-
 4 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/tcpm.c b/tcpm.c
index d4f79d8..8a7d001 100755
--- a/tcpm.c
+++ b/tcpm.c
@@ -527,6 +527,8 @@ static int TcpM_Cleanup(TcpM *m)
     SafeFree(m->Services);
     AddressList_Free(&(m->ServiceList));
     SafeFree(m->ServiceFamilies);
+    SafeFree(m->ServiceName);
+    SafeFree(m->ProxyName);
 
     m->WorkThread = NULL_THREAD;
 
@@ -891,8 +893,8 @@ int TcpM_Init(TcpM *m, const char *Services, BOOL Parallel, const char *SocksPro
 
     m->Send = TcpM_Send;
 
-    m->ServiceName = Services;
-    m->ProxyName = SocksProxies;
+    m->ServiceName = StringDup(Services);
+    m->ProxyName = StringDup(SocksProxies);
     m->Parallel = Parallel;
     m->IsServer = 1;
 
diff --git a/tcpm.h b/tcpm.h
index 88aa169..82b35ba 100755
--- a/tcpm.h
+++ b/tcpm.h
@@ -19,14 +19,14 @@ struct _TcpM {
 
     int IsServer;
 
-    const char      *ServiceName;
+    char            *ServiceName;
     AddressList     ServiceList;
     struct sockaddr **Services;
     sa_family_t     *ServiceFamilies;
     SocketPuller    QueryPuller;
     SocketPuller    **Agents;
 
-    const char      *ProxyName;
+    char            *ProxyName;
     AddressList     SocksProxyList;
     struct sockaddr **SocksProxies;
     sa_family_t     *SocksProxyFamilies;
diff --git a/udpm.c b/udpm.c
index d4af609..d0ba168 100755
--- a/udpm.c
+++ b/udpm.c
@@ -60,6 +60,7 @@ static int UdpM_Cleanup(UdpM *m)
 
     SafeFree(m->Parallels.addrs);
     AddressList_Free(&(m->AddrList));
+    SafeFree(m->ServiceName);
 
     m->WorkThread = NULL_THREAD;
 
@@ -406,7 +407,7 @@ int UdpM_Init(UdpM *m, const char *Services, BOOL Parallel)
 
     m->CountOfTimeout = 0;
 
-    m->ServiceName = Services;
+    m->ServiceName = StringDup(Services);
     m->IsServer = 1;
 
     EFFECTIVE_LOCK_INIT(m->Lock);
diff --git a/udpm.h b/udpm.h
index 77655b9..2c673da 100755
--- a/udpm.h
+++ b/udpm.h
@@ -20,7 +20,7 @@ struct _UdpM {
 
     int IsServer;
 
-    const char      *ServiceName;
+    char            *ServiceName;
     AddressList     AddrList;
     struct { /* parallel query informations */
         /* When these two are not NULL, parallel-query is enabled */
-- 
2.43.0


From 40d136c49494669ad79063792161ef1a662eb1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:46 +0000
Subject: [PATCH 11/36] fix: close TCP client sockets whose peer is gone

When the peer closed its connection, or receiving failed, the socket was
removed from the puller but never closed, so every TCP client leaked one
file descriptor.
---
 tcpfrontend.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/tcpfrontend.c b/tcpfrontend.c
index e1b2e88..e0d501c 100644
--- a/tcpfrontend.c
+++ b/tcpfrontend.c
@@ -118,9 +118,11 @@ TcpFrontend_Work(void *Unused)
             }
 
             CLOSE_SOCKET(sock_c);
-        } else if( RecvState == 1 )
-        {
-            INFO("Invalid data received from TCP client %s.\n", Agent);
+        } else {
+            if( RecvState == 1 )
+            {
+                INFO("Invalid data received from TCP client %s.\n", Agent);
+            }
             CLOSE_SOCKET(sock_c);
         }
 
@@ -211,6 +213,7 @@ int TcpFrontend_Init(ConfigFileInfo *ConfigInfo, BOOL StartWork)
         if( listen(sock, 16) == SOCKET_ERROR )
         {
             ERRORMSG("Can't listen on interface: %s .\n", One);
+            CLOSE_SOCKET(sock);
             break;
         }
 
-- 
2.43.0


From e4362cc007d3a66518f9753eb0b7c6efcaf65fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:59 +0000
Subject: [PATCH 12/36] fix: do not forward a cached answer upstream when it
 cannot be sent

---
 dnscache.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dnscache.c b/dnscache.c
index 288d9f5..a44c95b 100755
--- a/dnscache.c
+++ b/dnscache.c
@@ -952,8 +952,9 @@ int DNSCache_FetchFromCache(MsgContext *MsgCtx, int BufferLength)
     h->EntityLength = ResultLength;
     if( MsgContext_SendBack(MsgCtx) < 0 )
     {
-        /** TODO: Error handling */
-        return -861;
+        /* The request has been replaced by the answer, don't forward it */
+        ShowErrorMessage(h, 'C');
+        return 0;
     }
 
     ShowNormalMessage(h, 'C');
-- 
2.43.0


From 22bde9a29f9240997bb43edc7ceda96e4d5d360c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:59 +0000
Subject: [PATCH 13/36] fix: continue a partly sent TCP message instead of
 restarting it

---
 tcpm.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/tcpm.c b/tcpm.c
index 8a7d001..fdd0993 100755
--- a/tcpm.c
+++ b/tcpm.c
@@ -246,11 +246,21 @@ static int TcpM_Connect(TcpM *m, int ServerIndex, BOOL IsProxy)
 
 static int TcpM_SendWrapper(SOCKET Sock, const char *Start, int Length)
 {
+    int Sent = 0;
     time_t t = time(NULL);
 
-    while( send(Sock, Start, Length, MSG_NOSIGNAL) != Length )
+    while( Sent < Length )
     {
-        int LastError = GET_LAST_ERROR();
+        int State = send(Sock, Start + Sent, Length - Sent, MSG_NOSIGNAL);
+        int LastError;
+
+        if( State > 0 )
+        {
+            Sent += State;
+            continue;
+        }
+
+        LastError = GET_LAST_ERROR();
         if( FatalErrorDecideding(LastError) != 0 ||
                 !SocketIsWritable(Sock, TIMEOUT_ms_SEND) ||
                 time(NULL) - t > TIMEOUT_ms_SEND / 1000
-- 
2.43.0


From ac3ec238b2c15dcf3b32a687cf73a56fd652a6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:42 +0000
Subject: [PATCH 14/36] fix: ignore datagrams from others on the internal
 sockets

---
 hosts.c |  2 +-
 utils.c | 12 ++++++++++++
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/hosts.c b/hosts.c
index 2da3fed..02fb872 100755
--- a/hosts.c
+++ b/hosts.c
@@ -274,7 +274,7 @@ Hosts_SocketLoop(void *Unused)
             if( HostsUtils_CombineRecursedResponse((MsgContext *)InnerBuffer,
                                                    SOCKET_CONTEXT_LENGTH,
                                                    OuterEntity,
-                                                   State,
+                                                   OuterHeader->EntityLength,
                                                    OuterHeader->Domain
                                                    )
                 != 0 )
diff --git a/utils.c b/utils.c
index a549682..764ac58 100755
--- a/utils.c
+++ b/utils.c
@@ -1292,6 +1292,18 @@ SOCKET TryBindLocal(BOOL Ipv6, int StartPort, Address_Type *Address)
             continue;
         }
 
+        /* Only accept what it sends to itself */
+        if( connect(ret,
+                    (struct sockaddr *)&(Address1.Addr),
+                    GetAddressLength(Address1.family)
+                    )
+           != 0 )
+        {
+            CLOSE_SOCKET(ret);
+            ret = INVALID_SOCKET;
+            continue;
+        }
+
     } while( ret == INVALID_SOCKET && --MaxTime > 0 && ++StartPort > 0 );
 
     if( ret != INVALID_SOCKET && Address != NULL )
-- 
2.43.0


From 54a667e800cfea19cb55fce7ca89874e5706aca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:54 +0000
Subject: [PATCH 15/36] fix: hold the cache lock while looking for expired
 records

---
 dnscache.c | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/dnscache.c b/dnscache.c
index a44c95b..c06b8a0 100755
--- a/dnscache.c
+++ b/dnscache.c
@@ -58,25 +58,26 @@ struct _Header{
 
 static void DNSCacheTTLCountdown_Task(void *Unused, void *Unused2)
 {
-    BOOL        GotMutex = FALSE;
+    BOOL        Removed = FALSE;
 
     const Array *ChunkList = &(CacheInfo->NodeChunk);
-    int         loop = ChunkList->Used - 1;
-    Cht_Node    *Node = (Cht_Node *)Array_GetBySubscript(ChunkList, loop);
+    int         loop;
+    Cht_Node    *Node;
 
     time_t      CurrentTime = time(NULL);
 
+    RWLock_WrLock(CacheLock);
+
+    loop = ChunkList->Used - 1;
+    Node = (Cht_Node *)Array_GetBySubscript(ChunkList, loop);
+
     while( Node != NULL )
     {
         if( Node->TTL > 0 )
         {
             if( CurrentTime - Node->TimeAdded >= Node->TTL )
             {
-                if(GotMutex == FALSE)
-                {
-                    RWLock_WrLock(CacheLock);
-                    GotMutex = TRUE;
-                }
+                Removed = TRUE;
 
                 Node->TTL = 0;
 
@@ -92,7 +93,7 @@ static void DNSCacheTTLCountdown_Task(void *Unused, void *Unused2)
         Node = (Cht_Node *)Array_GetBySubscript(ChunkList, --loop);
     }
 
-    if(GotMutex == TRUE)
+    if(Removed == TRUE)
     {
         if( ChunkList->Used == 0 )
         {
@@ -101,9 +102,9 @@ static void DNSCacheTTLCountdown_Task(void *Unused, void *Unused2)
             Node = (Cht_Node *)Array_GetBySubscript(ChunkList, ChunkList->Used - 1);
             (*CacheEnd) = Node->Offset + Node->Length;
         }
-
-        RWLock_UnWLock(CacheLock);
     }
+
+    RWLock_UnWLock(CacheLock);
 }
 
 static BOOL IsReloadable(void)
-- 
2.43.0


From 8a185cf16fd5e4b73e713a9d15f1d36d006e65f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:31 +0000
Subject: [PATCH 16/36] fix: do not read a name that starts past the end of the
 message

---
 dnsparser.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/dnsparser.c b/dnsparser.c
index 17612ec..5676da8 100755
--- a/dnsparser.c
+++ b/dnsparser.c
@@ -14,7 +14,14 @@ int DNSGetHostName(const char *DNSBody, int DNSBodyLength, const char *NameStart
     const char *NameItr = NameStart;
     int LabelsLength = 0;
     BOOL Redirected = FALSE;
-    int LabelCount = GET_8_BIT_U_INT(NameItr); /* The amount of characters of the next label */
+    int LabelCount; /* The amount of characters of the next label */
+
+    if( DNSBody != NULL && NameStart >= DNSBody + DNSBodyLength )
+    {
+        return -1;
+    }
+
+    LabelCount = GET_8_BIT_U_INT(NameItr);
     while( LabelCount != 0 )
     {
         if( DNSIsLabelPointerStart(LabelCount) )
-- 
2.43.0


From 8058386ea70f8d11ab5443a20ce63b3fc63c54a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:13 +0000
Subject: [PATCH 17/36] fix: do not read a record's fields past its data

---
 dnsgenerator.c |  4 ++--
 dnsparser.c    | 20 ++++++++++++++++++++
 ipmisc.c       |  5 +++++
 3 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/dnsgenerator.c b/dnsgenerator.c
index 50cd1eb..feb3e69 100755
--- a/dnsgenerator.c
+++ b/dnsgenerator.c
@@ -724,7 +724,7 @@ static int DnsGenerator_CopyA(DnsGenerator *g, DnsSimpleParserIterator *i)
         return 1;
     }
 
-    if( i->Type != DNS_TYPE_A || i->Klass != DNS_CLASS_IN )
+    if( i->Type != DNS_TYPE_A || i->Klass != DNS_CLASS_IN || i->DataLength != 4 )
     {
         return 2;
     }
@@ -782,7 +782,7 @@ static int DnsGenerator_CopyAAAA(DnsGenerator *g, DnsSimpleParserIterator *i)
         return 1;
     }
 
-    if( i->Type != DNS_TYPE_AAAA || i->Klass != DNS_CLASS_IN )
+    if( i->Type != DNS_TYPE_AAAA || i->Klass != DNS_CLASS_IN || i->DataLength != 16 )
     {
         return 2;
     }
diff --git a/dnsparser.c b/dnsparser.c
index 5676da8..7ef802f 100755
--- a/dnsparser.c
+++ b/dnsparser.c
@@ -555,6 +555,11 @@ static int DnsSimpleParserIterator_Parse16Uint(DnsSimpleParserIterator *i,
 
     BOOL IsToCache = Format == NULL;
 
+    if( *DataLength < 2 )
+    {
+        return -1;
+    }
+
     if( IsToCache )
     {
         if( 2 > BufferLength )
@@ -622,6 +627,11 @@ static int DnsSimpleParserIterator_Parse32Uint(DnsSimpleParserIterator *i,
 
     BOOL IsToCache = Format == NULL;
 
+    if( *DataLength < 4 )
+    {
+        return -1;
+    }
+
     if( IsToCache )
     {
         if( 4 > BufferLength )
@@ -688,6 +698,11 @@ static int DnsSimpleParserIterator_ParseIPv4(DnsSimpleParserIterator *i,
 
     BOOL IsToCache = Format == NULL;
 
+    if( *DataLength < 4 )
+    {
+        return -1;
+    }
+
     if( IsToCache )
     {
         if( 4 > BufferLength )
@@ -752,6 +767,11 @@ static int DnsSimpleParserIterator_ParseIPv6(DnsSimpleParserIterator *i,
 
     BOOL IsToCache = Format == NULL;
 
+    if( *DataLength < 16 )
+    {
+        return -1;
+    }
+
     if( IsToCache )
     {
         if( 16 > BufferLength )
diff --git a/ipmisc.c b/ipmisc.c
index 23f6910..34b6a17 100755
--- a/ipmisc.c
+++ b/ipmisc.c
@@ -99,6 +99,11 @@ static int IPMisc_Process(IPMisc *m,
             continue;
         }
 
+        if( i.DataLength < DataLength )
+        {
+            continue;
+        }
+
         RowDataPos = i.RowData(&i);
         if( IpChunk_Find(&(m->c),
                          (unsigned char *)RowDataPos,
-- 
2.43.0


From a9551c6f410db76231323711b0d35249289dc747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:35 +0000
Subject: [PATCH 18/36] fix: a TXT string longer than its record is malformed

---
 dnsparser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dnsparser.c b/dnsparser.c
index 7ef802f..1dad7da 100755
--- a/dnsparser.c
+++ b/dnsparser.c
@@ -1071,7 +1071,7 @@ static int DNSRRGetString(const char *Data,
     {
         int n = GET_8_BIT_U_INT(DataItr);
 
-        if( n >= BufferLeft )
+        if( n >= BufferLeft || n >= Data + DataLength - DataItr )
         {
             return -1;
         }
-- 
2.43.0


From 8b59a6870b1d8989b8e3b87e60f67e7e4ca86925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:45 +0000
Subject: [PATCH 19/36] fix: keep the textual summary of a response inside its
 buffer

---
 dnsparser.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/dnsparser.c b/dnsparser.c
index 1dad7da..11ba43a 100755
--- a/dnsparser.c
+++ b/dnsparser.c
@@ -154,7 +154,11 @@ char *GetAllAnswers(char *DNSBody, int DNSBodyLength, char *Buffer, int BufferLe
     {
         if( i.TextifyData(&i, "   %t: %v\n", BufferItr, BufferLeft) <= 0 )
         {
-            sprintf(BufferItr, "   And %d More ...\n", ANACount);
+            snprintf(BufferItr,
+                     BufferLeft + strlen(Tail),
+                     "   And %d More ...\n",
+                     ANACount
+                     );
 
             break;
         } else {
@@ -1169,6 +1173,11 @@ static int DnsSimpleParserIterator_ParseRaw(DnsSimpleParserIterator *i,
         return -1;
     }
 
+    if( strlen(Format) + 1 > BufferLength )
+    {
+        return -1;
+    }
+
     strcpy(Buffer, Format);
 
     if( TypeName == DNS_TYPENAME_UNKNOWN )
-- 
2.43.0


From 9d7853da3021c494830e8f37740d669063d565f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:56 +0000
Subject: [PATCH 20/36] fix: free the address pointer lists, not the first
 address they point to

---
 tcpm.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tcpm.c b/tcpm.c
index fdd0993..1a6b3fd 100755
--- a/tcpm.c
+++ b/tcpm.c
@@ -527,7 +527,7 @@ static int TcpM_Cleanup(TcpM *m)
     {
         m->ProxyPuller.Free(&(m->ProxyPuller));
         SocketPullers_Free(m->Proxies);
-        SafeFree(*(m->SocksProxies));
+        SafeFree(m->SocksProxies);
         AddressList_Free(&(m->SocksProxyList));
         SafeFree(m->SocksProxyFamilies);
     }
@@ -916,7 +916,7 @@ int TcpM_Init(TcpM *m, const char *Services, BOOL Parallel, const char *SocksPro
 EXIT_9:
     m->ProxyPuller.FreeWithoutClose(&(m->ProxyPuller));
 EXIT_8:
-    SafeFree(*(m->SocksProxies));
+    SafeFree(m->SocksProxies);
 EXIT_7:
     AddressList_Free(&(m->SocksProxyList));
 
@@ -925,7 +925,7 @@ EXIT_6:
 EXIT_5:
     m->QueryPuller.FreeWithoutClose(&(m->QueryPuller));
 EXIT_4:
-    SafeFree(*(m->Services));
+    SafeFree(m->Services);
 
 EXIT_3:
     AddressList_Free(&(m->ServiceList));
-- 
2.43.0


From 0787eff63d23b833a2db3ea5584fc12445ceff34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:57 +0000
Subject: [PATCH 21/36] fix: close the probing socket that cannot be made
 non-blocking

---
 goodiplist.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/goodiplist.c b/goodiplist.c
index 1115028..118d7fc 100755
--- a/goodiplist.c
+++ b/goodiplist.c
@@ -43,6 +43,7 @@ static struct sockaddr_in *CheckAList(struct sockaddr_in *Ips, int Count)
 
         if( SetSocketNonBlock(skt, TRUE) != 0 )
         {
+            CLOSE_SOCKET(skt);
             continue;
         }
 
-- 
2.43.0


From a268fd76d898ecf91b35673f0015e0d49d2ba7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:57 +0000
Subject: [PATCH 22/36] fix: close the socket when the alias worker's puller
 cannot be set up

---
 hosts.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hosts.c b/hosts.c
index 02fb872..58f507b 100755
--- a/hosts.c
+++ b/hosts.c
@@ -156,8 +156,8 @@ Hosts_SocketLoop(void *Unused)
 
     if( SocketPuller_Init(&Puller, 0) != 0 )
     {
-        ret = -423;
-        goto EXIT_1;
+        CLOSE_SOCKET(OuterSocket);
+        return -423;
     }
 
     Puller.Add(&Puller, InnerSocket, NULL, 0);
-- 
2.43.0


From 48c483542f09d76b7b598f2bf78407372d0bebaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:57 +0000
Subject: [PATCH 23/36] fix: do not free the slot table, which lies inside the
 cache area

---
 cacheht.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cacheht.c b/cacheht.c
index acca20f..bb08182 100755
--- a/cacheht.c
+++ b/cacheht.c
@@ -421,7 +421,10 @@ Cht_Node *CacheHT_Get(CacheHT *h, const char *Key, const Cht_Node *Start, const
 
 void CacheHT_Free(CacheHT *h)
 {
+    /* Both arrays are views of the cache area, which is not owned here. */
     Array_Free(&(h->NodeChunk));
-    Array_Free(&(h->Slots));
+    h->Slots.Data = NULL;
+    h->Slots.Used = 0;
+    h->Slots.Allocated = 0;
     h->Free2DList = -1;
 }
-- 
2.43.0


From 63d1e91bd165a82815d4e470077dfefb660d6cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:57 +0000
Subject: [PATCH 24/36] fix: release the block holding the pullers of a group

---
 socketpuller.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/socketpuller.c b/socketpuller.c
index ce0c9b4..9452137 100755
--- a/socketpuller.c
+++ b/socketpuller.c
@@ -192,5 +192,6 @@ void SocketPullers_Free(SocketPuller **Pullers)
     {
         (*Pullers)->Free(*Pullers);
     }
+    SafeFree(*p); /* All of them are in one block. */
     SafeFree(p);
 }
-- 
2.43.0


From 277be9358073fbe375f2ed0a63a65dbb57a17ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:21 +0000
Subject: [PATCH 25/36] fix: the length logged for bad TCP data is an int as
 its format says

---
 tcpm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tcpm.c b/tcpm.c
index 1a6b3fd..9692b0e 100755
--- a/tcpm.c
+++ b/tcpm.c
@@ -676,7 +676,7 @@ TcpM_Works(TcpM *m)
             if( TCPLength != 0 )
             {
                 WARNING("TCP %s received bad data, len: %d.\n",
-                        m->SocksProxies != NULL ? "proxy" : "server", PartialData - Entity);
+                        m->SocksProxies != NULL ? "proxy" : "server", (int)(PartialData - Entity));
                 CLOSE_SOCKET(s);
                 continue;
             }
-- 
2.43.0


From 0ffcd29be6200100e36cb71f9fc60f6a75dac674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:39 +0000
Subject: [PATCH 26/36] fix: order pending queries of one identifier by
 comparing, not subtracting, name hashes

---
 mcontext.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mcontext.c b/mcontext.c
index 52aa723..11c3cd2 100755
--- a/mcontext.c
+++ b/mcontext.c
@@ -125,7 +125,7 @@ static int ModuleContextCompare(const void *_1, const void *_2)
     {
         return Id_1 - Id_2;
     } else {
-        return One->HashValue - Two->HashValue;
+        return (One->HashValue > Two->HashValue) - (One->HashValue < Two->HashValue);
     }
 }
 
-- 
2.43.0


From 4a0e7539efe529ca449dc6b50124b034584ff587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:39 +0000
Subject: [PATCH 27/36] fix: find an address in a range that encloses another
 configured range

---
 ipchunk.c | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/ipchunk.c b/ipchunk.c
index ee4396c..23f37b2 100755
--- a/ipchunk.c
+++ b/ipchunk.c
@@ -311,6 +311,25 @@ int IpChunk_Add(IpChunk *ic,
     return elm == NULL;
 }
 
+typedef struct _CidrLookup {
+    IpElement       *Key;
+    const IpElement *Result;
+} CidrLookup;
+
+static int IpChunk_FindCidr_Inner(Bst *t, const void *Data, void *Arg)
+{
+    CidrLookup *Lookup = (CidrLookup *)Arg;
+
+    if( Contain(Lookup->Key, (IpElement *)Data) != 0 )
+    {
+        return 0;
+    }
+
+    Lookup->Result = (const IpElement *)Data;
+
+    return 1;
+}
+
 BOOL IpChunk_Find(IpChunk *ic, unsigned char *Ip, int IpBytes, int *Type, const char **Data)
 {
     IpElement   Key;
@@ -344,6 +363,17 @@ BOOL IpChunk_Find(IpChunk *ic, unsigned char *Ip, int IpBytes, int *Type, const
         Result = ic->CidrChunk.Search(&(ic->CidrChunk), &Key, NULL);
     }
 
+    if( Result == NULL )
+    {
+        /* Ranges may be nested, so a wider one can hide behind a narrower one. */
+        CidrLookup Lookup;
+
+        Lookup.Key = &Key;
+        Lookup.Result = NULL;
+        ic->CidrChunk.Enum(&(ic->CidrChunk), IpChunk_FindCidr_Inner, &Lookup);
+        Result = Lookup.Result;
+    }
+
     if( Result == NULL )
     {
         return FALSE;
-- 
2.43.0


From 7d80e381740d3f67e18925cb9d948441ad75584d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:39 +0000
Subject: [PATCH 28/36] fix: a message with more than one question is malformed

---
 iheader.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/iheader.c b/iheader.c
index 9e964fa..5fae20e 100755
--- a/iheader.c
+++ b/iheader.c
@@ -51,6 +51,12 @@ int IHeader_Fill(IHeader *h,
         switch( i.Purpose )
         {
         case DNS_RECORD_PURPOSE_QUESTION:
+            if( HasQuestion )
+            {
+                /* Only one of the questions could be checked and answered. */
+                return -44;
+            }
+
             if( i.Klass != DNS_CLASS_IN )
             {
                 return -48;
-- 
2.43.0


From c9b2cba633a42ce95b6b02386e977790fdc8d246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:27 +0000
Subject: [PATCH 29/36] fix: disabled names match whatever the case they are
 written in

---
 filter.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/filter.c b/filter.c
index 26d56c4..403b509 100755
--- a/filter.c
+++ b/filter.c
@@ -55,6 +55,9 @@ static int LoadDomainsFromList(StringChunk *List, StringList *Domains)
         return -1;
     }
 
+    /* Names are looked up in lower case. */
+    Domains->LowercaseAll(Domains);
+
     Str = sli.Next(&sli);
     while( Str != NULL )
     {
@@ -112,6 +115,7 @@ static int LoadDomainsFromFile(StringChunk *List, const char *FilePath)
 
         if( Status == READ_DONE )
         {
+            StrToLower(Domain);
             StringChunk_Add_Domain(List, Domain, NULL, 0);
         } else {
             ReadLine_GoToNextLine(fp);
-- 
2.43.0


From 4afe61029775767bc2a6f85615ef41bae5adff6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:44 +0000
Subject: [PATCH 30/36] fix: hosts entries match whatever the case they are
 written in

---
 hostscontainer.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hostscontainer.c b/hostscontainer.c
index 1a986cc..0e1a827 100755
--- a/hostscontainer.c
+++ b/hostscontainer.c
@@ -404,6 +404,9 @@ PUBFUNC HostsRecordType HostsContainer_Load(HostsContainer *Container,
         return HOSTS_TYPE_UNKNOWN;
     }
 
+    /* Names are looked up in lower case. */
+    StrToLower(Domain);
+
     return HostsContainer_Add(Container, IPOrCName, Domain);
 }
 
-- 
2.43.0


From e51f4bfeb4b59d6053f45b8dd53eb13fbb3f2b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:44 +0000
Subject: [PATCH 31/36] fix: cache control rules match whatever the case of
 their names, and are not read half

---
 cachettlcrtl.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/cachettlcrtl.c b/cachettlcrtl.c
index 8b0753d..93f73d7 100755
--- a/cachettlcrtl.c
+++ b/cachettlcrtl.c
@@ -33,7 +33,16 @@ int CacheTtlCrtl_Add_From_String(CacheTtlCtrl *c, const char *Rule)
     uint32_t Increment = 0;
     int     Infection = TTL_CTRL_INFECTION_AGGRESSIVLY;
 
-    sscanf(Rule, "%127s%15s%63s", Domain, Cmd, Arg);
+    Cmd[0] = '\0';
+    Arg[0] = '\0';
+
+    if( sscanf(Rule, "%127s%15s%63s", Domain, Cmd, Arg) < 1 )
+    {
+        return -1;
+    }
+
+    /* Names are looked up in lower case. */
+    StrToLower(Domain);
 
     if( Cmd[0] == '$' )
     {
-- 
2.43.0


From 0eb92775bb11ea438165fff44ea69188d5aca5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:52 +0000
Subject: [PATCH 32/36] fix: skipping the rest of a long line does not skip the
 next line

---
 readline.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/readline.c b/readline.c
index 2fd69aa..7eab035 100755
--- a/readline.c
+++ b/readline.c
@@ -121,14 +121,17 @@ START:
 
 ReadLineStatus ReadLine_GoToNextLine(FILE *fp)
 {
-    ReadLineStatus Status;
     char Buffer[128];
 
+    /* Only the rest of this line, even if nothing is left of it. */
     do
     {
-        Status = ReadLine(fp, Buffer, sizeof(Buffer));
+        if( fgets(Buffer, sizeof(Buffer), fp) == NULL )
+        {
+            return READ_FAILED_OR_END;
+        }
     }
-    while( Status == READ_TRUNCATED );
+    while( !ReachedLineEnd(fp, Buffer) );
 
-    return Status;
+    return READ_DONE;
 }
-- 
2.43.0


From ec0e19d3fdc49987c703b1825279e1d1df6637f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:43 +0000
Subject: [PATCH 33/36] fix: cache controls were looked up with type and class
 appended to the name, so they never applied to alias names

---
 dnscache.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/dnscache.c b/dnscache.c
index c06b8a0..d8a1d0e 100755
--- a/dnscache.c
+++ b/dnscache.c
@@ -471,6 +471,8 @@ static int DNSCache_AddAItemToCache(DnsSimpleParserIterator *i,
     /* Iterator of `Buffer' */
     char            *BufferItr;
 
+    char            Name[512]; /* as long as `Buffer' */
+    const CtrlContent   *NameTtlContent;
     const CtrlContent   *TtlContent;
 
     /* Assign start byte of the cache */
@@ -482,6 +484,11 @@ static int DNSCache_AddAItemToCache(DnsSimpleParserIterator *i,
         return -1;
     }
 
+    /* Cache controls are looked up by the mere name, in lower case */
+    strcpy(Name, Item);
+    StrToLower(Name);
+    NameTtlContent = CacheTtlCrtl_Get(TtlCtrl, Name);
+
     /* Jump just over the name, right at '\0' */
     BufferItr = Item + strlen(Item);
     if( BufferItr >= Buffer + sizeof(Buffer) )
@@ -552,7 +559,7 @@ static int DNSCache_AddAItemToCache(DnsSimpleParserIterator *i,
                     break;
 
                 case TTL_CTRL_INFECTION_PASSIVLY:
-                    TtlContent = CacheTtlCrtl_Get(TtlCtrl, Item);
+                    TtlContent = NameTtlContent;
                     if( TtlContent == NULL )
                     {
                         TtlContent = InfectedTtlContent;
@@ -560,11 +567,11 @@ static int DNSCache_AddAItemToCache(DnsSimpleParserIterator *i,
                     break;
 
                 case TTL_CTRL_INFECTION_NONE:
-                    TtlContent = CacheTtlCrtl_Get(TtlCtrl, Item);
+                    TtlContent = NameTtlContent;
                     break;
             }
         } else {
-            TtlContent = CacheTtlCrtl_Get(TtlCtrl, Item);
+            TtlContent = NameTtlContent;
         }
 
         if( TtlContent != NULL )
-- 
2.43.0


From a72d89023eda3f73ba6c9bf6b2ef66e4737222ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:21 +0000
Subject: [PATCH 34/36] fix: do not follow aliases of hosts that lead back to
 themselves

---
 hosts.c | 36 +++++++++++++++++++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/hosts.c b/hosts.c
index 58f507b..d565d03 100755
--- a/hosts.c
+++ b/hosts.c
@@ -9,6 +9,8 @@
 
 extern BOOL Ipv6_Enabled;
 
+#define ALIAS_CHAIN_LENGTH_MAX  16
+
 static BOOL BlockIpv6WhenIpv4Exists = FALSE;
 
 static SOCKET   InnerSocket;
@@ -40,6 +42,32 @@ static int Hosts_GetCName(const char *Domain, char *Buffer)
            DynamicHosts_GetCName(Domain, Buffer) == 0);
 }
 
+/* Aliases could lead back to themselves, then they have no end. */
+static BOOL Hosts_AliasesEnd(const char *Domain)
+{
+    char Alias[DOMAIN_NAME_LENGTH_MAX + 1];
+    char Next[DOMAIN_NAME_LENGTH_MAX + 1];
+    int i;
+
+    if( Hosts_GetCName(Domain, Alias) != 0 )
+    {
+        return TRUE;
+    }
+
+    for( i = 0; i < ALIAS_CHAIN_LENGTH_MAX; ++i )
+    {
+        if( Hosts_TypeExisting(Alias, HOSTS_TYPE_EXCLUEDE) ||
+            Hosts_GetCName(Alias, Next) != 0 )
+        {
+            return TRUE;
+        }
+
+        memcpy(Alias, Next, sizeof(Alias));
+    }
+
+    return FALSE;
+}
+
 HostsUtilsTryResult Hosts_Try(MsgContext *MsgCtx, int BufferLength)
 {
     HostsUtilsTryResult ret;
@@ -67,6 +95,12 @@ HostsUtilsTryResult Hosts_Try(MsgContext *MsgCtx, int BufferLength)
 
     if( ret == HOSTSUTILS_TRY_RECURSED )
     {
+        if( !Hosts_AliasesEnd(Header->Domain) )
+        {
+            ERRORMSG("Aliases of %s in hosts have no end.\n", Header->Domain);
+            return HOSTSUTILS_TRY_BLOCKED;
+        }
+
         if( sendto(InnerSocket,
                    (const char *)Header, /* Only send header and identifier */
                    sizeof(IHeader) + sizeof(uint16_t), /* Only send header and identifier */
@@ -91,7 +125,7 @@ int Hosts_Get(MsgContext *MsgCtx, int BufferLength)
     {
     case HOSTSUTILS_TRY_BLOCKED:
         MsgContext_SendBackRefusedMessage(MsgCtx);
-        ShowRefusingMessage(Header, "Disabled because of existing IPv4 host");
+        ShowRefusingMessage(Header, "Disabled because of hosts");
         DomainStatistic_Add(Header, STATISTIC_TYPE_REFUSED);
         return 0;
         break;
-- 
2.43.0


From b75691dd24967f31d1d90655d3c0f51e9e1f6db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:20 +0000
Subject: [PATCH 35/36] fix: do not let a silent TCP client hold up the others

---
 tcpfrontend.c | 59 ++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 42 insertions(+), 17 deletions(-)

diff --git a/tcpfrontend.c b/tcpfrontend.c
index e0d501c..cc96b59 100644
--- a/tcpfrontend.c
+++ b/tcpfrontend.c
@@ -7,8 +7,38 @@
 
 extern BOOL Ipv6_Enabled;
 
+#define TIMEOUT_ms_CLIENT   2000
+
 static SocketPuller Frontend;
 
+/* A message could arrive in pieces, but not too slowly, because the others are waiting. */
+static int TcpFrontend_Recv(SOCKET Sock, char *Buffer, int Length)
+{
+    int Received = 0;
+    time_t t = time(NULL);
+
+    while( Received < Length )
+    {
+        int State;
+
+        if( !SocketIsStillReadable(Sock, TIMEOUT_ms_CLIENT) ||
+            time(NULL) - t > TIMEOUT_ms_CLIENT / 1000 )
+        {
+            break;
+        }
+
+        State = recv(Sock, Buffer + Received, Length - Received, 0);
+        if( State <= 0 )
+        {
+            break;
+        }
+
+        Received += State;
+    }
+
+    return Received;
+}
+
 static void
 #ifdef WIN32
 WINAPI
@@ -36,7 +66,6 @@ TcpFrontend_Work(void *Unused)
     {
         SOCKET sock, sock_c;
         Address_Type *ClientAddr, ClientAddr_c;
-        BOOL IsNewConnected;
 
         int RecvState;
         uint16_t TCPLength;
@@ -67,14 +96,18 @@ TcpFrontend_Work(void *Unused)
                 continue;
             }
 
-            IsNewConnected = TRUE;
             ClientAddr_c.family = ClientAddr->family;
-            ClientAddr = &ClientAddr_c;
-        } else {
-            IsNewConnected = FALSE;
-            sock_c = sock;
+            if( Frontend.Add(&Frontend, sock_c, &ClientAddr_c, sizeof(Address_Type)) != 0 )
+            {
+                CLOSE_SOCKET(sock_c);
+            }
+
+            /* It has maybe nothing to say for now. */
+            continue;
         }
 
+        sock_c = sock;
+
         if( ClientAddr->family == AF_INET )
         {
             IPv4AddressToAsc(&(((struct sockaddr_in *)ClientAddr)->sin_addr), Agent);
@@ -82,13 +115,13 @@ TcpFrontend_Work(void *Unused)
             IPv6AddressToAsc(&(((struct sockaddr_in6 *)ClientAddr)->sin6_addr), Agent);
         }
 
-        RecvState = recv(sock_c, (char *)&TCPLength, 2, 0);
+        RecvState = TcpFrontend_Recv(sock_c, (char *)&TCPLength, 2);
         if( RecvState == 2 )
         {
             TCPLength = ntohs(TCPLength);
             if( TCPLength <= LEFT_LENGTH )
             {
-                RecvState = recv(sock_c, Entity, TCPLength, 0);
+                RecvState = TcpFrontend_Recv(sock_c, Entity, TCPLength);
                 if( RecvState == TCPLength &&
                     IHeader_Fill(Header,
                                  FALSE,
@@ -103,11 +136,6 @@ TcpFrontend_Work(void *Unused)
                 {
                     MMgr_Send(ReceiveBuffer, SOCKET_CONTEXT_LENGTH);
 
-                    if( IsNewConnected )
-                    {
-                        Frontend.Add(&Frontend, sock_c, ClientAddr, sizeof(Address_Type));
-                    }
-
                     continue;
 
                 } else {
@@ -127,10 +155,7 @@ TcpFrontend_Work(void *Unused)
         }
 
         /* recv failed */
-        if( IsNewConnected == FALSE )
-        {
-            Frontend.Del(&Frontend, sock_c);
-        }
+        Frontend.Del(&Frontend, sock_c);
     }
 
     SafeFree(ReceiveBuffer);
-- 
2.43.0


From fb434d3bd1e84ad2d1a811e2425e34271eedf22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:24 +0000
Subject: [PATCH 36/36] fix: do not wait for a TCP client that does not take
 its replies

---
 iheader.c     | 21 +++++++++++++++------
 tcpfrontend.c |  3 ++-
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/iheader.c b/iheader.c
index 5fae20e..c403f6a 100755
--- a/iheader.c
+++ b/iheader.c
@@ -181,18 +181,27 @@ int MsgContext_SendBack(MsgContext *MsgCtx)
     if( MsgContext_IsFromTCP(MsgCtx) )
     {
         /* TCP */
+        int Sent;
+
         Content -= 2;
         Length += 2;
 
         DNSSetTcpLength(Content, h->EntityLength);
 
-        if( send(h->SendBackSocket,
-                 Content,
-                 Length,
-                 MSG_NOSIGNAL
-                 )
-            != Length )
+        Sent = send(h->SendBackSocket,
+                    Content,
+                    Length,
+                    MSG_NOSIGNAL
+                    );
+
+        if( Sent != Length )
         {
+            if( Sent > 0 )
+            {
+                /* The rest can't follow, the stream is useless. */
+                shutdown(h->SendBackSocket, 2);
+            }
+
             /** TODO: Show error */
             return -112;
         }
diff --git a/tcpfrontend.c b/tcpfrontend.c
index cc96b59..ed479e2 100644
--- a/tcpfrontend.c
+++ b/tcpfrontend.c
@@ -97,7 +97,8 @@ TcpFrontend_Work(void *Unused)
             }
 
             ClientAddr_c.family = ClientAddr->family;
-            if( Frontend.Add(&Frontend, sock_c, &ClientAddr_c, sizeof(Address_Type)) != 0 )
+            if( SetSocketNonBlock(sock_c, TRUE) != 0 ||
+                Frontend.Add(&Frontend, sock_c, &ClientAddr_c, sizeof(Address_Type)) != 0 )
             {
                 CLOSE_SOCKET(sock_c);
             }
-- 
2.43.0

