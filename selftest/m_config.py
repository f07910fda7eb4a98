M='main.c'; RC='readconfig.c'
BUGS=[
('P24','dead',[('filter.c','"DisabledList"','"DisabledDomain"')]),
('P24','typo-reg',[(M,'"HostsRetryInterval"','"HostRetryInterval"')]),
('P24','typo-read',[('ipmisc.c','ConfigGetBoolean(CurrConfigInfo, "ReloadIPSubstituting")','ConfigGetBoolean(CurrConfigInfo, "ReloadIpSubstitution")')]),
('P24','type',[(M,'ConfigAddOption(&ConfigInfo, "OverrideTTL", STRATEGY_DEFAULT, TYPE_INT32','ConfigAddOption(&ConfigInfo, "OverrideTTL", STRATEGY_DEFAULT, TYPE_STRING')]),
('P24','strategy',[(M,'"BlockIP", STRATEGY_APPEND','"BlockIP", STRATEGY_REPLACE'),(M,'"DisabledList", STRATEGY_APPEND','"DisabledList", STRATEGY_REPLACE')]),
('P24','default',[(M,'TmpTypeDescriptor.INT32 = 18000;','TmpTypeDescriptor.INT32 = 1800;')]),
('P24','default2',[(M,'TmpTypeDescriptor.INT32 = 5;','TmpTypeDescriptor.INT32 = 50;')]),
('P24','alias',[(M,'"ServerGroup", "TCPGroup", "TCP"','"ServerGroups", "TCPGroup", "TCP"')]),
('P24','late',[(M,'    ConfigRead(&ConfigInfo);\n    ConfigCloseFile(&ConfigInfo);\n','    ConfigRead(&ConfigInfo);\n    ConfigCloseFile(&ConfigInfo);\n    TmpTypeDescriptor.INT32 = 30;\n    ConfigSetDefaultValue(&ConfigInfo, TmpTypeDescriptor, "HostsRetryInterval");\n')]),
('P24','noeffect',[('dynamichosts.c','    HostsRetryInterval = ConfigGetInt32(ConfigInfo, "HostsRetryInterval");','    ConfigGetInt32(ConfigInfo, "HostsRetryInterval");')]),
('P24','append-clears',[(RC,'            Option->Holder.str.Clear(&(Option->Holder.str));\n            /* No break */\n\n        case STRATEGY_APPEND:','        case STRATEGY_APPEND:\n            Option->Holder.str.Clear(&(Option->Holder.str));\n')]),
('P24','discard-forgets',[(RC,'                Option->Strategy = STRATEGY_APPEND;\n            }\n            /* No break */\n\n        case STRATEGY_DEFAULT:\n        case STRATEGY_REPLACE:\n            Option->Holder.str.Clear','                Option->Status = STATUS_SPECIAL_VALUE;\n            }\n            /* No break */\n\n        case STRATEGY_DEFAULT:\n        case STRATEGY_REPLACE:\n            Option->Holder.str.Clear')]),
('P24','replace-adds',[(RC,'            Option->Holder.str.Clear(&(Option->Holder.str));\n            /* No break */','            /* No break */')]),
('P24','path-split',[(RC,'                ExpandPath(ValuePos, sizeof(Buffer) - (ValuePos - Buffer));\n                StringDelimiters = "";','                ExpandPath(ValuePos, sizeof(Buffer) - (ValuePos - Buffer));')]),
('P24','bool-yes',[(RC,'        else if( strstr(Dump, "yes") != NULL )\n            return TRUE;','        else if( strstr(Dump, "yes") != NULL )\n            return FALSE;')]),
('P24','bool-skip',[(RC,'            case TYPE_BOOLEAN:\n                ParseBoolean(Option, ValuePos);\n                break;\n','            case TYPE_BOOLEAN:\n                break;\n')]),
('P24','int-hex',[(RC,'            sscanf(Value, "%d", &(Option->Holder.INT32));','            sscanf(Value, "%x", &(Option->Holder.INT32));')]),
]
QUIET=[
('P24','helper-bool',[(M,'static int EnvironmentInit(void)','static void AddBool(const char *Name, BOOL Default)\n{\n    VType v;\n    v.boolean = Default;\n    ConfigAddOption(&ConfigInfo, Name, STRATEGY_DEFAULT, TYPE_BOOLEAN, v);\n}\n\nstatic int EnvironmentInit(void)'),(M,'    TmpTypeDescriptor.boolean = FALSE;\n    ConfigAddOption(&ConfigInfo, "LogOn", STRATEGY_DEFAULT, TYPE_BOOLEAN, TmpTypeDescriptor);','    AddBool("LogOn", FALSE);')]),
('P24','flag-first',[('filter.c','    if ( ConfigGetBoolean(CurrConfigInfo, "ReloadDisabledList") )\n    {','    BOOL Reload = ConfigGetBoolean(CurrConfigInfo, "ReloadDisabledList");\n    if ( Reload )\n    {')]),
('P24','parse-if',[(RC,'''        case STRATEGY_DEFAULT:
        case STRATEGY_REPLACE:
            Option->Holder.str.Clear(&(Option->Holder.str));
            /* No break */

        case STRATEGY_APPEND:
            if( Option''','''        case STRATEGY_DEFAULT:
        case STRATEGY_REPLACE:
        case STRATEGY_APPEND:
            if( Clear )
            {
                Option->Holder.str.Clear(&(Option->Holder.str));
            }
            if( Option'''),(RC,'                        int BufferLength\n                        )\n{\n','                        int BufferLength\n                        )\n{\n    BOOL Clear = Option->Strategy != STRATEGY_APPEND;\n')]),
]
