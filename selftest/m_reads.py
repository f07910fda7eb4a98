BUGS=[
('P09','host-start',[('dnsparser.c','    if( DNSBody != NULL && NameStart >= DNSBody + DNSBodyLength )\n    {\n        return -1;\n    }\n','')]),
('P09','host-ptr2',[('dnsparser.c','            if( NameItr + 1 >= DNSBody + DNSBodyLength )\n            {\n                return -1;\n            }\n','')]),
('P09','host-back',[('dnsparser.c','if( LabelPointer >= NameItr - DNSBody )','if( LabelPointer > DNSBodyLength )')]),
('P09','host-label',[('dnsparser.c','NameItr + LabelCount + 1 >= DNSBody + DNSBodyLength','NameItr + LabelCount > DNSBody + DNSBodyLength')]),
('P09','copy-end',[('dnsparser.c','if( src >= DNSBody + DNSBodyLength || FullLength >= 255 )','if( FullLength >= 255 )')]),
('P09','copy-ptr',[('dnsparser.c','if( src + 1 >= DNSBody + DNSBodyLength ||\n                DNSLabelGetPointer(src) >= src - DNSBody\n                )','if( DNSLabelGetPointer(src) >= src - DNSBody )')]),
('P09','copy-255',[('dnsparser.c','|| FullLength >= 255 )',')')]),
('P09','next-rec',[('dnsparser.c','(i->Purpose == DNS_RECORD_PURPOSE_QUESTION ? 4 : 10) > LeftLength','4 > LeftLength')]),
('P09','next-data',[('dnsparser.c','if( NameLength + 10 + i->DataLength > LeftLength )','if( i->DataLength > LeftLength )')]),
('P09','next-neg',[('dnsparser.c','    if( NameLength < 0 ||\n        NameLength +','    if( NameLength +')]),
('P09','init-len',[('dnsparser.c','if( RawDns == NULL || Length < DNS_HEADER_LENGTH )','if( RawDns == NULL || Length < 4 )')]),
('P09','ipv4-len',[('dnsparser.c','    char Example[LENGTH_OF_IPV4_ADDRESS_ASCII];\n\n    BOOL IsToCache = Format == NULL;\n\n    if( *DataLength < 4 )','    char Example[LENGTH_OF_IPV4_ADDRESS_ASCII];\n\n    BOOL IsToCache = Format == NULL;\n\n    if( *DataLength < 1 )')]),
('P09','ipv6-len',[('dnsparser.c','if( *DataLength < 16 )','if( *DataLength < 4 )')]),
('P09','u16-len',[('dnsparser.c','    if( *DataLength < 2 )\n    {\n        return -1;\n    }\n','')]),
('P09','pd-left',[('dnsparser.c','DataItr = Data + i->DataLength - LeftDataLength;','DataItr += n;')]),
('P09','ipmisc-len',[('ipmisc.c','if( i.DataLength < DataLength )','if( i.DataLength < 1 )')]),
('P09','copya-len',[('dnsgenerator.c','i->Klass != DNS_CLASS_IN || i->DataLength != 4 )','i->Klass != DNS_CLASS_IN )')]),
('P09','cache-q',[('dnscache.c','i.Purpose != DNS_RECORD_PURPOSE_UNKNOWN &&\n                            i.Purpose != DNS_RECORD_PURPOSE_QUESTION;','i.Purpose != DNS_RECORD_PURPOSE_UNKNOWN;')]),
]
QUIET=[
(['P09','P10'],'host-swap',[('dnsparser.c','            if( LabelPointer >= NameItr - DNSBody )\n            {\n                return -1;\n            }\n            NameItr = DNSBody + LabelPointer;','            if( DNSBody + LabelPointer >= NameItr )\n            {\n                return -1;\n            }\n            NameItr = DNSBody + LabelPointer;')]),
(['P09','P10'],'next-helper',[('dnsparser.c','static char *DnsSimpleParserIterator_Next(DnsSimpleParserIterator *i)\n{','static char *DnsSimpleParserIterator_End(DnsSimpleParserIterator *i)\n{\n    i->CurrentPosition = NULL;\n    i->RecordPosition = 0;\n    return NULL;\n}\n\nstatic char *DnsSimpleParserIterator_Next(DnsSimpleParserIterator *i)\n{'),('dnsparser.c','        NameLength + (i->Purpose == DNS_RECORD_PURPOSE_QUESTION ? 4 : 10) > LeftLength\n      )\n    {\n        i->CurrentPosition = NULL;\n        i->RecordPosition = 0;\n        return NULL;\n    }','        NameLength + (i->Purpose == DNS_RECORD_PURPOSE_QUESTION ? 4 : 10) > LeftLength\n      )\n    {\n        return DnsSimpleParserIterator_End(i);\n    }')]),
(['P09','P10'],'copy-for',[('dnsparser.c','    while( TRUE )\n    {\n        if( src >= DNSBody + DNSBodyLength || FullLength >= 255 )\n        {\n            return -1;\n        }\n','    while( src < DNSBody + DNSBodyLength && FullLength < 255 )\n    {\n'),('dnsparser.c',"            if( *src == '\\0' )\n            {\n                break;\n            }\n\n            ++src;\n        }\n    }\n\n    return FullLength;","            if( *src == '\\0' )\n            {\n                return FullLength;\n            }\n\n            ++src;\n        }\n    }\n\n    return -1;")]),
(['P09','P10'],'next-local',[('dnsparser.c','    i->Type = DNSGetRecordType(i->CurrentPosition);\n    i->Klass = DNSGetRecordClass(i->CurrentPosition);','    {\n        const char *Tail = i->CurrentPosition + NameLength;\n        i->Type = GET_16_BIT_U_INT(Tail);\n        i->Klass = GET_16_BIT_U_INT(Tail + 2);\n    }'),('dnsparser.c','i->DataLength = DNSGetResourceDataLength(i->CurrentPosition);','i->DataLength = GET_16_BIT_U_INT(i->CurrentPosition + NameLength + 8);')]),
(['P09'],'ipmisc-skip',[('ipmisc.c','        if( i.DataLength < DataLength )','        if( DataLength > i.DataLength )')]),
]
