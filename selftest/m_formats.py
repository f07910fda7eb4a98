BUGS=[
('P33','nonliteral',[('dynamichosts.c','INFO("Getting hosts from %s ...\\n", HostsURLs[0]);','INFO(HostsURLs[0]);')]),
('P33','missing-arg',[('ipmisc.c','WARNING("IPSubstitutingFile has invalid tuple: %s\\n", Mapping);','WARNING("IPSubstitutingFile has invalid tuple: %s\\n");')]),
('P33','s-int',[('udpm.c','ERRORMSG("recvfrom %s error: %d\\n", m->ServiceName, RecvState);','ERRORMSG("recvfrom %s error: %s\\n", m->ServiceName, RecvState);')]),
('P33','swapped',[('udpm.c','ERRORMSG("recvfrom %s error: %d\\n", m->ServiceName, RecvState);','ERRORMSG("recvfrom %s error: %d\\n", RecvState, m->ServiceName);')]),
('P33','scan-width',[('addresslist.c','sscanf(PortPos + 1, "%hu", &Port);','sscanf(PortPos + 1, "%u", &Port);')]),
('P33','scan-missing',[('goodiplist.c','"%127s%*[^0123456789]%15[^:]:%d", n, ip_str, &Port','"%127s%*[^0123456789]%15[^:]:%d", n, ip_str')]),
('P33','stat-name',[('domainstatistic.c','fprintf(MainFile, "%s", PreOutput);','fprintf(MainFile, PreOutput);')]),
]
QUIET=[
('P33','const-format',[('udpm.c','ERRORMSG("recvfrom %s error: %d\\n", m->ServiceName, RecvState);','const char *Fmt = m->ServiceName != NULL ? "recvfrom %s error: %d\\n" : "recvfrom %s error : %d\\n";\n            ERRORMSG(Fmt, m->ServiceName, RecvState);')]),
('P33','wrapped',[('dynamichosts.c','static void DynamicHosts_','static void Unused(void) { }\nstatic void DynamicHosts_')] if 0 else [('dynamichosts.c','INFO("Getting hosts from %s ...\\n", HostsURLs[0]);','Log_Print("INFO", "Getting hosts from %s ...\\n", HostsURLs[0]);')]),
]
