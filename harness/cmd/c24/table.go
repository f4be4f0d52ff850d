package main

// Generated by tools/gen_errs.py.

import "github.com/renthraysk/xtorm/netx/connection/errs"

var codes = []struct {
	name  string
	code  uint32 // MySQL's
	boost bool   // as in Boost.MySQL's headers
	v     uint64 // the package's
}{
	{"ErHashchk", 1000, true, uint64(errs.ErHashchk)},
	{"ErNisamchk", 1001, true, uint64(errs.ErNisamchk)},
	{"ErNo", 1002, true, uint64(errs.ErNo)},
	{"ErYes", 1003, true, uint64(errs.ErYes)},
	{"ErCantCreateFile", 1004, true, uint64(errs.ErCantCreateFile)},
	{"ErCantCreateTable", 1005, true, uint64(errs.ErCantCreateTable)},
	{"ErCantCreateDb", 1006, true, uint64(errs.ErCantCreateDb)},
	{"ErDbCreateExists", 1007, true, uint64(errs.ErDbCreateExists)},
	{"ErDbDropExists", 1008, true, uint64(errs.ErDbDropExists)},
	{"ErDbDropDelete", 1009, true, uint64(errs.ErDbDropDelete)},
	{"ErDbDropRmdir", 1010, true, uint64(errs.ErDbDropRmdir)},
	{"ErCantDeleteFile", 1011, true, uint64(errs.ErCantDeleteFile)},
	{"ErCantFindSystemRec", 1012, true, uint64(errs.ErCantFindSystemRec)},
	{"ErCantGetStat", 1013, true, uint64(errs.ErCantGetStat)},
	{"ErCantGetWd", 1014, true, uint64(errs.ErCantGetWd)},
	{"ErCantLock", 1015, true, uint64(errs.ErCantLock)},
	{"ErCantOpenFile", 1016, true, uint64(errs.ErCantOpenFile)},
	{"ErFileNotFound", 1017, true, uint64(errs.ErFileNotFound)},
	{"ErCantReadDir", 1018, true, uint64(errs.ErCantReadDir)},
	{"ErCantSetWd", 1019, true, uint64(errs.ErCantSetWd)},
	{"ErCheckread", 1020, true, uint64(errs.ErCheckread)},
	{"ErDiskFull", 1021, true, uint64(errs.ErDiskFull)},
	{"ErDupKey", 1022, true, uint64(errs.ErDupKey)},
	{"ErErrorOnClose", 1023, true, uint64(errs.ErErrorOnClose)},
	{"ErErrorOnRead", 1024, true, uint64(errs.ErErrorOnRead)},
	{"ErErrorOnRename", 1025, true, uint64(errs.ErErrorOnRename)},
	{"ErErrorOnWrite", 1026, true, uint64(errs.ErErrorOnWrite)},
	{"ErFileUsed", 1027, true, uint64(errs.ErFileUsed)},
	{"ErFilsortAbort", 1028, true, uint64(errs.ErFilsortAbort)},
	{"ErFormNotFound", 1029, true, uint64(errs.ErFormNotFound)},
	{"ErGetErrno", 1030, true, uint64(errs.ErGetErrno)},
	{"ErIllegalHa", 1031, true, uint64(errs.ErIllegalHa)},
	{"ErKeyNotFound", 1032, true, uint64(errs.ErKeyNotFound)},
	{"ErNotFormFile", 1033, true, uint64(errs.ErNotFormFile)},
	{"ErNotKeyfile", 1034, true, uint64(errs.ErNotKeyfile)},
	{"ErOldKeyfile", 1035, true, uint64(errs.ErOldKeyfile)},
	{"ErOpenAsReadonly", 1036, true, uint64(errs.ErOpenAsReadonly)},
	{"ErOutofmemory", 1037, true, uint64(errs.ErOutofmemory)},
	{"ErOutOfSortmemory", 1038, true, uint64(errs.ErOutOfSortmemory)},
	{"ErUnexpectedEOF", 1039, true, uint64(errs.ErUnexpectedEOF)},
	{"ErConCountError", 1040, true, uint64(errs.ErConCountError)},
	{"ErOutOfResources", 1041, true, uint64(errs.ErOutOfResources)},
	{"ErBadHostError", 1042, true, uint64(errs.ErBadHostError)},
	{"ErHandshakeError", 1043, true, uint64(errs.ErHandshakeError)},
	{"ErDbaccessDeniedError", 1044, true, uint64(errs.ErDbaccessDeniedError)},
	{"ErAccessDeniedError", 1045, true, uint64(errs.ErAccessDeniedError)},
	{"ErNoDbError", 1046, true, uint64(errs.ErNoDbError)},
	{"ErUnknownComError", 1047, true, uint64(errs.ErUnknownComError)},
	{"ErBadNullError", 1048, true, uint64(errs.ErBadNullError)},
	{"ErBadDbError", 1049, true, uint64(errs.ErBadDbError)},
	{"ErTableExistsError", 1050, true, uint64(errs.ErTableExistsError)},
	{"ErBadTableError", 1051, true, uint64(errs.ErBadTableError)},
	{"ErNonUniqError", 1052, true, uint64(errs.ErNonUniqError)},
	{"ErServerShutdown", 1053, true, uint64(errs.ErServerShutdown)},
	{"ErBadFieldError", 1054, true, uint64(errs.ErBadFieldError)},
	{"ErWrongFieldWithGroup", 1055, true, uint64(errs.ErWrongFieldWithGroup)},
	{"ErWrongGroupField", 1056, true, uint64(errs.ErWrongGroupField)},
	{"ErWrongSumSelect", 1057, true, uint64(errs.ErWrongSumSelect)},
	{"ErWrongValueCount", 1058, true, uint64(errs.ErWrongValueCount)},
	{"ErTooLongIdent", 1059, true, uint64(errs.ErTooLongIdent)},
	{"ErDupFieldname", 1060, true, uint64(errs.ErDupFieldname)},
	{"ErDupKeyname", 1061, true, uint64(errs.ErDupKeyname)},
	{"ErDupEntry", 1062, true, uint64(errs.ErDupEntry)},
	{"ErWrongFieldSpec", 1063, true, uint64(errs.ErWrongFieldSpec)},
	{"ErParseError", 1064, true, uint64(errs.ErParseError)},
	{"ErEmptyQuery", 1065, true, uint64(errs.ErEmptyQuery)},
	{"ErNonuniqTable", 1066, true, uint64(errs.ErNonuniqTable)},
	{"ErInvalidDefault", 1067, true, uint64(errs.ErInvalidDefault)},
	{"ErMultiplePriKey", 1068, true, uint64(errs.ErMultiplePriKey)},
	{"ErTooManyKeys", 1069, true, uint64(errs.ErTooManyKeys)},
	{"ErTooManyKeyParts", 1070, true, uint64(errs.ErTooManyKeyParts)},
	{"ErTooLongKey", 1071, true, uint64(errs.ErTooLongKey)},
	{"ErKeyColumnDoesNotExits", 1072, true, uint64(errs.ErKeyColumnDoesNotExits)},
	{"ErBlobUsedAsKey", 1073, true, uint64(errs.ErBlobUsedAsKey)},
	{"ErTooBigFieldlength", 1074, true, uint64(errs.ErTooBigFieldlength)},
	{"ErWrongAutoKey", 1075, true, uint64(errs.ErWrongAutoKey)},
	{"ErReady", 1076, true, uint64(errs.ErReady)},
	{"ErNormalShutdown", 1077, true, uint64(errs.ErNormalShutdown)},
	{"ErGotSignal", 1078, true, uint64(errs.ErGotSignal)},
	{"ErShutdownComplete", 1079, true, uint64(errs.ErShutdownComplete)},
	{"ErForcingClose", 1080, true, uint64(errs.ErForcingClose)},
	{"ErIpsockError", 1081, true, uint64(errs.ErIpsockError)},
	{"ErNoSuchIndex", 1082, true, uint64(errs.ErNoSuchIndex)},
	{"ErWrongFieldTerminators", 1083, true, uint64(errs.ErWrongFieldTerminators)},
	{"ErBlobsAndNoTerminated", 1084, true, uint64(errs.ErBlobsAndNoTerminated)},
	{"ErTextfileNotReadable", 1085, true, uint64(errs.ErTextfileNotReadable)},
	{"ErFileExistsError", 1086, true, uint64(errs.ErFileExistsError)},
	{"ErLoadInfo", 1087, true, uint64(errs.ErLoadInfo)},
	{"ErAlterInfo", 1088, true, uint64(errs.ErAlterInfo)},
	{"ErWrongSubKey", 1089, true, uint64(errs.ErWrongSubKey)},
	{"ErCantRemoveAllFields", 1090, true, uint64(errs.ErCantRemoveAllFields)},
	{"ErCantDropFieldOrKey", 1091, true, uint64(errs.ErCantDropFieldOrKey)},
	{"ErInsertInfo", 1092, true, uint64(errs.ErInsertInfo)},
	{"ErUpdateTableUsed", 1093, true, uint64(errs.ErUpdateTableUsed)},
	{"ErNoSuchThread", 1094, true, uint64(errs.ErNoSuchThread)},
	{"ErKillDeniedError", 1095, true, uint64(errs.ErKillDeniedError)},
	{"ErNoTablesUsed", 1096, true, uint64(errs.ErNoTablesUsed)},
	{"ErTooBigSet", 1097, true, uint64(errs.ErTooBigSet)},
	{"ErNoUniqueLogfile", 1098, true, uint64(errs.ErNoUniqueLogfile)},
	{"ErTableNotLockedForWrite", 1099, true, uint64(errs.ErTableNotLockedForWrite)},
	{"ErTableNotLocked", 1100, true, uint64(errs.ErTableNotLocked)},
	{"ErBlobCantHaveDefault", 1101, true, uint64(errs.ErBlobCantHaveDefault)},
	{"ErWrongDbName", 1102, true, uint64(errs.ErWrongDbName)},
	{"ErWrongTableName", 1103, true, uint64(errs.ErWrongTableName)},
	{"ErTooBigSelect", 1104, true, uint64(errs.ErTooBigSelect)},
	{"ErUnknownError", 1105, true, uint64(errs.ErUnknownError)},
	{"ErUnknownProcedure", 1106, true, uint64(errs.ErUnknownProcedure)},
	{"ErWrongParamcountToProcedure", 1107, true, uint64(errs.ErWrongParamcountToProcedure)},
	{"ErWrongParametersToProcedure", 1108, true, uint64(errs.ErWrongParametersToProcedure)},
	{"ErUnknownTable", 1109, true, uint64(errs.ErUnknownTable)},
	{"ErFieldSpecifiedTwice", 1110, true, uint64(errs.ErFieldSpecifiedTwice)},
	{"ErInvalidGroupFuncUse", 1111, true, uint64(errs.ErInvalidGroupFuncUse)},
	{"ErUnsupportedExtension", 1112, true, uint64(errs.ErUnsupportedExtension)},
	{"ErTableMustHaveColumns", 1113, true, uint64(errs.ErTableMustHaveColumns)},
	{"ErRecordFileFull", 1114, true, uint64(errs.ErRecordFileFull)},
	{"ErUnknownCharacterSet", 1115, true, uint64(errs.ErUnknownCharacterSet)},
	{"ErTooManyTables", 1116, true, uint64(errs.ErTooManyTables)},
	{"ErTooManyFields", 1117, true, uint64(errs.ErTooManyFields)},
	{"ErTooBigRowsize", 1118, true, uint64(errs.ErTooBigRowsize)},
	{"ErStackOverrun", 1119, true, uint64(errs.ErStackOverrun)},
	{"ErWrongOuterJoin", 1120, false, uint64(errs.ErWrongOuterJoin)},
	{"ErNullColumnInIndex", 1121, true, uint64(errs.ErNullColumnInIndex)},
	{"ErCantFindUdf", 1122, true, uint64(errs.ErCantFindUdf)},
	{"ErCantInitializeUdf", 1123, true, uint64(errs.ErCantInitializeUdf)},
	{"ErUdfNoPaths", 1124, true, uint64(errs.ErUdfNoPaths)},
	{"ErUdfExists", 1125, true, uint64(errs.ErUdfExists)},
	{"ErCantOpenLibrary", 1126, true, uint64(errs.ErCantOpenLibrary)},
	{"ErCantFindDlEntry", 1127, true, uint64(errs.ErCantFindDlEntry)},
	{"ErFunctionNotDefined", 1128, true, uint64(errs.ErFunctionNotDefined)},
	{"ErHostIsBlocked", 1129, true, uint64(errs.ErHostIsBlocked)},
	{"ErHostNotPrivileged", 1130, true, uint64(errs.ErHostNotPrivileged)},
	{"ErPasswordAnonymousUser", 1131, true, uint64(errs.ErPasswordAnonymousUser)},
	{"ErPasswordNotAllowed", 1132, true, uint64(errs.ErPasswordNotAllowed)},
	{"ErPasswordNoMatch", 1133, true, uint64(errs.ErPasswordNoMatch)},
	{"ErUpdateInfo", 1134, true, uint64(errs.ErUpdateInfo)},
	{"ErCantCreateThread", 1135, true, uint64(errs.ErCantCreateThread)},
	{"ErWrongValueCountOnRow", 1136, true, uint64(errs.ErWrongValueCountOnRow)},
	{"ErCantReopenTable", 1137, true, uint64(errs.ErCantReopenTable)},
	{"ErInvalidUseOfNull", 1138, true, uint64(errs.ErInvalidUseOfNull)},
	{"ErRegexpError", 1139, true, uint64(errs.ErRegexpError)},
	{"ErMixOfGroupFuncAndFields", 1140, true, uint64(errs.ErMixOfGroupFuncAndFields)},
	{"ErNonexistingGrant", 1141, true, uint64(errs.ErNonexistingGrant)},
	{"ErTableaccessDeniedError", 1142, true, uint64(errs.ErTableaccessDeniedError)},
	{"ErColumnaccessDeniedError", 1143, true, uint64(errs.ErColumnaccessDeniedError)},
	{"ErIllegalGrantForTable", 1144, true, uint64(errs.ErIllegalGrantForTable)},
	{"ErGrantWrongHostOrUser", 1145, true, uint64(errs.ErGrantWrongHostOrUser)},
	{"ErNoSuchTable", 1146, true, uint64(errs.ErNoSuchTable)},
	{"ErNonexistingTableGrant", 1147, true, uint64(errs.ErNonexistingTableGrant)},
	{"ErNotAllowedCommand", 1148, true, uint64(errs.ErNotAllowedCommand)},
	{"ErSyntaxError", 1149, true, uint64(errs.ErSyntaxError)},
	{"ErDelayedCantChangeLock", 1150, false, uint64(errs.ErDelayedCantChangeLock)},
	{"ErTooManyDelayedThreads", 1151, false, uint64(errs.ErTooManyDelayedThreads)},
	{"ErAbortingConnection", 1152, true, uint64(errs.ErAbortingConnection)},
	{"ErNetPacketTooLarge", 1153, true, uint64(errs.ErNetPacketTooLarge)},
	{"ErNetReadErrorFromPipe", 1154, true, uint64(errs.ErNetReadErrorFromPipe)},
	{"ErNetFcntlError", 1155, true, uint64(errs.ErNetFcntlError)},
	{"ErNetPacketsOutOfOrder", 1156, true, uint64(errs.ErNetPacketsOutOfOrder)},
	{"ErNetUncompressError", 1157, true, uint64(errs.ErNetUncompressError)},
	{"ErNetReadError", 1158, true, uint64(errs.ErNetReadError)},
	{"ErNetReadInterrupted", 1159, true, uint64(errs.ErNetReadInterrupted)},
	{"ErNetErrorOnWrite", 1160, true, uint64(errs.ErNetErrorOnWrite)},
	{"ErNetWriteInterrupted", 1161, true, uint64(errs.ErNetWriteInterrupted)},
	{"ErTooLongString", 1162, true, uint64(errs.ErTooLongString)},
	{"ErTableCantHandleBlob", 1163, true, uint64(errs.ErTableCantHandleBlob)},
	{"ErTableCantHandleAutoIncrement", 1164, true, uint64(errs.ErTableCantHandleAutoIncrement)},
	{"ErDelayedInsertTableLocked", 1165, false, uint64(errs.ErDelayedInsertTableLocked)},
	{"ErWrongColumnName", 1166, true, uint64(errs.ErWrongColumnName)},
	{"ErWrongKeyColumn", 1167, true, uint64(errs.ErWrongKeyColumn)},
	{"ErWrongMrgTable", 1168, true, uint64(errs.ErWrongMrgTable)},
	{"ErDupUnique", 1169, true, uint64(errs.ErDupUnique)},
	{"ErBlobKeyWithoutLength", 1170, true, uint64(errs.ErBlobKeyWithoutLength)},
	{"ErPrimaryCantHaveNull", 1171, true, uint64(errs.ErPrimaryCantHaveNull)},
	{"ErTooManyRows", 1172, true, uint64(errs.ErTooManyRows)},
	{"ErRequiresPrimaryKey", 1173, true, uint64(errs.ErRequiresPrimaryKey)},
	{"ErNoRaidCompiled", 1174, true, uint64(errs.ErNoRaidCompiled)},
	{"ErUpdateWithoutKeyInSafeMode", 1175, true, uint64(errs.ErUpdateWithoutKeyInSafeMode)},
	{"ErKeyDoesNotExits", 1176, true, uint64(errs.ErKeyDoesNotExits)},
	{"ErCheckNoSuchTable", 1177, true, uint64(errs.ErCheckNoSuchTable)},
	{"ErCheckNotImplemented", 1178, true, uint64(errs.ErCheckNotImplemented)},
	{"ErCantDoThisDuringAnTransaction", 1179, true, uint64(errs.ErCantDoThisDuringAnTransaction)},
	{"ErErrorDuringCommit", 1180, true, uint64(errs.ErErrorDuringCommit)},
	{"ErErrorDuringRollback", 1181, true, uint64(errs.ErErrorDuringRollback)},
	{"ErErrorDuringFlushLogs", 1182, true, uint64(errs.ErErrorDuringFlushLogs)},
	{"ErErrorDuringCheckpoint", 1183, true, uint64(errs.ErErrorDuringCheckpoint)},
	{"ErNewAbortingConnection", 1184, true, uint64(errs.ErNewAbortingConnection)},
	{"ErDumpNotImplemented", 1185, true, uint64(errs.ErDumpNotImplemented)},
	{"ErFlushMasterBinlogClosed", 1186, true, uint64(errs.ErFlushMasterBinlogClosed)},
	{"ErIndexRebuild", 1187, true, uint64(errs.ErIndexRebuild)},
	{"ErMaster", 1188, true, uint64(errs.ErMaster)},
	{"ErMasterNetRead", 1189, true, uint64(errs.ErMasterNetRead)},
	{"ErMasterNetWrite", 1190, true, uint64(errs.ErMasterNetWrite)},
	{"ErFtMatchingKeyNotFound", 1191, true, uint64(errs.ErFtMatchingKeyNotFound)},
	{"ErLockOrActiveTransaction", 1192, true, uint64(errs.ErLockOrActiveTransaction)},
	{"ErUnknownSystemVariable", 1193, true, uint64(errs.ErUnknownSystemVariable)},
	{"ErCrashedOnUsage", 1194, true, uint64(errs.ErCrashedOnUsage)},
	{"ErCrashedOnRepair", 1195, true, uint64(errs.ErCrashedOnRepair)},
	{"ErWarningNotCompleteRollback", 1196, true, uint64(errs.ErWarningNotCompleteRollback)},
	{"ErTransCacheFull", 1197, true, uint64(errs.ErTransCacheFull)},
	{"ErSlaveMustStop", 1198, true, uint64(errs.ErSlaveMustStop)},
	{"ErSlaveNotRunning", 1199, true, uint64(errs.ErSlaveNotRunning)},
	{"ErBadSlave", 1200, true, uint64(errs.ErBadSlave)},
	{"ErMasterInfo", 1201, true, uint64(errs.ErMasterInfo)},
	{"ErSlaveThread", 1202, true, uint64(errs.ErSlaveThread)},
	{"ErTooManyUserConnections", 1203, true, uint64(errs.ErTooManyUserConnections)},
	{"ErSetConstantsOnly", 1204, true, uint64(errs.ErSetConstantsOnly)},
	{"ErLockWaitTimeout", 1205, true, uint64(errs.ErLockWaitTimeout)},
	{"ErLockTableFull", 1206, true, uint64(errs.ErLockTableFull)},
	{"ErReadOnlyTransaction", 1207, true, uint64(errs.ErReadOnlyTransaction)},
	{"ErDropDbWithReadLock", 1208, true, uint64(errs.ErDropDbWithReadLock)},
	{"ErCreateDbWithReadLock", 1209, true, uint64(errs.ErCreateDbWithReadLock)},
	{"ErWrongArguments", 1210, true, uint64(errs.ErWrongArguments)},
	{"ErNoPermissionToCreateUser", 1211, true, uint64(errs.ErNoPermissionToCreateUser)},
	{"ErUnionTablesInDifferentDir", 1212, true, uint64(errs.ErUnionTablesInDifferentDir)},
	{"ErLockDeadlock", 1213, true, uint64(errs.ErLockDeadlock)},
	{"ErTableCantHandleFt", 1214, true, uint64(errs.ErTableCantHandleFt)},
	{"ErCannotAddForeign", 1215, true, uint64(errs.ErCannotAddForeign)},
	{"ErNoReferencedRow", 1216, true, uint64(errs.ErNoReferencedRow)},
	{"ErRowIsReferenced", 1217, true, uint64(errs.ErRowIsReferenced)},
	{"ErConnectToMaster", 1218, true, uint64(errs.ErConnectToMaster)},
	{"ErQueryOnMaster", 1219, true, uint64(errs.ErQueryOnMaster)},
	{"ErErrorWhenExecutingCommand", 1220, true, uint64(errs.ErErrorWhenExecutingCommand)},
	{"ErWrongUsage", 1221, true, uint64(errs.ErWrongUsage)},
	{"ErWrongNumberOfColumnsInSelect", 1222, true, uint64(errs.ErWrongNumberOfColumnsInSelect)},
	{"ErCantUpdateWithReadlock", 1223, true, uint64(errs.ErCantUpdateWithReadlock)},
	{"ErMixingNotAllowed", 1224, true, uint64(errs.ErMixingNotAllowed)},
	{"ErDupArgument", 1225, true, uint64(errs.ErDupArgument)},
	{"ErUserLimitReached", 1226, true, uint64(errs.ErUserLimitReached)},
	{"ErSpecificAccessDeniedError", 1227, true, uint64(errs.ErSpecificAccessDeniedError)},
	{"ErLocalVariable", 1228, true, uint64(errs.ErLocalVariable)},
	{"ErGlobalVariable", 1229, true, uint64(errs.ErGlobalVariable)},
	{"ErNoDefault", 1230, true, uint64(errs.ErNoDefault)},
	{"ErWrongValueForVar", 1231, true, uint64(errs.ErWrongValueForVar)},
	{"ErWrongTypeForVar", 1232, true, uint64(errs.ErWrongTypeForVar)},
	{"ErVarCantBeRead", 1233, true, uint64(errs.ErVarCantBeRead)},
	{"ErCantUseOptionHere", 1234, true, uint64(errs.ErCantUseOptionHere)},
	{"ErNotSupportedYet", 1235, true, uint64(errs.ErNotSupportedYet)},
	{"ErMasterFatalErrorReadingBinlog", 1236, true, uint64(errs.ErMasterFatalErrorReadingBinlog)},
	{"ErSlaveIgnoredTable", 1237, true, uint64(errs.ErSlaveIgnoredTable)},
	{"ErIncorrectGlobalLocalVar", 1238, true, uint64(errs.ErIncorrectGlobalLocalVar)},
	{"ErWrongFkDef", 1239, true, uint64(errs.ErWrongFkDef)},
	{"ErKeyRefDoNotMatchTableRef", 1240, true, uint64(errs.ErKeyRefDoNotMatchTableRef)},
	{"ErOperandColumns", 1241, true, uint64(errs.ErOperandColumns)},
	{"ErSubqueryNo1Row", 1242, true, uint64(errs.ErSubqueryNo1Row)},
	{"ErUnknownStmtHandler", 1243, true, uint64(errs.ErUnknownStmtHandler)},
	{"ErCorruptHelpDb", 1244, true, uint64(errs.ErCorruptHelpDb)},
	{"ErCyclicReference", 1245, true, uint64(errs.ErCyclicReference)},
	{"ErAutoConvert", 1246, true, uint64(errs.ErAutoConvert)},
	{"ErIllegalReference", 1247, true, uint64(errs.ErIllegalReference)},
	{"ErDerivedMustHaveAlias", 1248, true, uint64(errs.ErDerivedMustHaveAlias)},
	{"ErSelectReduced", 1249, true, uint64(errs.ErSelectReduced)},
	{"ErTablenameNotAllowedHere", 1250, true, uint64(errs.ErTablenameNotAllowedHere)},
	{"ErNotSupportedAuthMode", 1251, true, uint64(errs.ErNotSupportedAuthMode)},
	{"ErSpatialCantHaveNull", 1252, true, uint64(errs.ErSpatialCantHaveNull)},
	{"ErCollationCharsetMismatch", 1253, true, uint64(errs.ErCollationCharsetMismatch)},
	{"ErSlaveWasRunning", 1254, true, uint64(errs.ErSlaveWasRunning)},
	{"ErSlaveWasNotRunning", 1255, true, uint64(errs.ErSlaveWasNotRunning)},
	{"ErTooBigForUncompress", 1256, true, uint64(errs.ErTooBigForUncompress)},
	{"ErZlibZMemError", 1257, true, uint64(errs.ErZlibZMemError)},
	{"ErZlibZBufError", 1258, true, uint64(errs.ErZlibZBufError)},
	{"ErZlibZDataError", 1259, true, uint64(errs.ErZlibZDataError)},
	{"ErCutValueGroupConcat", 1260, true, uint64(errs.ErCutValueGroupConcat)},
	{"ErWarnTooFewRecords", 1261, true, uint64(errs.ErWarnTooFewRecords)},
	{"ErWarnTooManyRecords", 1262, true, uint64(errs.ErWarnTooManyRecords)},
	{"ErWarnNullToNotnull", 1263, true, uint64(errs.ErWarnNullToNotnull)},
	{"ErWarnDataOutOfRange", 1264, true, uint64(errs.ErWarnDataOutOfRange)},
	{"ErWarnUsingOtherHandler", 1266, true, uint64(errs.ErWarnUsingOtherHandler)},
	{"ErCantAggregate2Collations", 1267, true, uint64(errs.ErCantAggregate2Collations)},
	{"ErDropUser", 1268, true, uint64(errs.ErDropUser)},
	{"ErRevokeGrants", 1269, true, uint64(errs.ErRevokeGrants)},
	{"ErCantAggregate3Collations", 1270, true, uint64(errs.ErCantAggregate3Collations)},
	{"ErCantAggregateNcollations", 1271, true, uint64(errs.ErCantAggregateNcollations)},
	{"ErVariableIsNotStruct", 1272, true, uint64(errs.ErVariableIsNotStruct)},
	{"ErUnknownCollation", 1273, true, uint64(errs.ErUnknownCollation)},
	{"ErSlaveIgnoredSslParams", 1274, true, uint64(errs.ErSlaveIgnoredSslParams)},
	{"ErServerIsInSecureAuthMode", 1275, true, uint64(errs.ErServerIsInSecureAuthMode)},
	{"ErWarnFieldResolved", 1276, true, uint64(errs.ErWarnFieldResolved)},
	{"ErBadSlaveUntilCond", 1277, true, uint64(errs.ErBadSlaveUntilCond)},
	{"ErMissingSkipSlave", 1278, true, uint64(errs.ErMissingSkipSlave)},
	{"ErUntilCondIgnored", 1279, true, uint64(errs.ErUntilCondIgnored)},
	{"ErWrongNameForIndex", 1280, true, uint64(errs.ErWrongNameForIndex)},
	{"ErWrongNameForCatalog", 1281, true, uint64(errs.ErWrongNameForCatalog)},
	{"ErWarnQcResize", 1282, true, uint64(errs.ErWarnQcResize)},
	{"ErBadFtColumn", 1283, true, uint64(errs.ErBadFtColumn)},
	{"ErUnknownKeyCache", 1284, true, uint64(errs.ErUnknownKeyCache)},
	{"ErWarnHostnameWontWork", 1285, true, uint64(errs.ErWarnHostnameWontWork)},
	{"ErUnknownStorageEngine", 1286, true, uint64(errs.ErUnknownStorageEngine)},
	{"ErWarnDeprecatedSyntax", 1287, true, uint64(errs.ErWarnDeprecatedSyntax)},
	{"ErNonUpdatableTable", 1288, true, uint64(errs.ErNonUpdatableTable)},
	{"ErFeatureDisabled", 1289, true, uint64(errs.ErFeatureDisabled)},
	{"ErOptionPreventsStatement", 1290, true, uint64(errs.ErOptionPreventsStatement)},
	{"ErDuplicatedValueInType", 1291, true, uint64(errs.ErDuplicatedValueInType)},
	{"ErTruncatedWrongValue", 1292, true, uint64(errs.ErTruncatedWrongValue)},
	{"ErTooMuchAutoTimestampCols", 1293, true, uint64(errs.ErTooMuchAutoTimestampCols)},
	{"ErInvalidOnUpdate", 1294, true, uint64(errs.ErInvalidOnUpdate)},
	{"ErUnsupportedPs", 1295, true, uint64(errs.ErUnsupportedPs)},
	{"ErGetErrmsg", 1296, true, uint64(errs.ErGetErrmsg)},
	{"ErGetTemporaryErrmsg", 1297, true, uint64(errs.ErGetTemporaryErrmsg)},
	{"ErUnknownTimeZone", 1298, true, uint64(errs.ErUnknownTimeZone)},
	{"ErWarnInvalidTimestamp", 1299, true, uint64(errs.ErWarnInvalidTimestamp)},
	{"ErInvalidCharacterString", 1300, true, uint64(errs.ErInvalidCharacterString)},
	{"ErWarnAllowedPacketOverflowed", 1301, true, uint64(errs.ErWarnAllowedPacketOverflowed)},
	{"ErConflictingDeclarations", 1302, true, uint64(errs.ErConflictingDeclarations)},
	{"ErSpNoRecursiveCreate", 1303, true, uint64(errs.ErSpNoRecursiveCreate)},
	{"ErSpAlreadyExists", 1304, true, uint64(errs.ErSpAlreadyExists)},
	{"ErSpDoesNotExist", 1305, true, uint64(errs.ErSpDoesNotExist)},
	{"ErSpDropFailed", 1306, true, uint64(errs.ErSpDropFailed)},
	{"ErSpStoreFailed", 1307, true, uint64(errs.ErSpStoreFailed)},
	{"ErSpLilabelMismatch", 1308, true, uint64(errs.ErSpLilabelMismatch)},
	{"ErSpLabelRedefine", 1309, true, uint64(errs.ErSpLabelRedefine)},
	{"ErSpLabelMismatch", 1310, true, uint64(errs.ErSpLabelMismatch)},
	{"ErSpUninitVar", 1311, true, uint64(errs.ErSpUninitVar)},
	{"ErSpBadselect", 1312, true, uint64(errs.ErSpBadselect)},
	{"ErSpBadreturn", 1313, true, uint64(errs.ErSpBadreturn)},
	{"ErSpBadstatement", 1314, true, uint64(errs.ErSpBadstatement)},
	{"ErUpdateLogDeprecatedIgnored", 1315, true, uint64(errs.ErUpdateLogDeprecatedIgnored)},
	{"ErUpdateLogDeprecatedTranslated", 1316, true, uint64(errs.ErUpdateLogDeprecatedTranslated)},
	{"ErQueryInterrupted", 1317, true, uint64(errs.ErQueryInterrupted)},
	{"ErSpWrongNoOfArgs", 1318, true, uint64(errs.ErSpWrongNoOfArgs)},
	{"ErSpCondMismatch", 1319, true, uint64(errs.ErSpCondMismatch)},
	{"ErSpNoreturn", 1320, true, uint64(errs.ErSpNoreturn)},
	{"ErSpNoreturnend", 1321, true, uint64(errs.ErSpNoreturnend)},
	{"ErSpBadCursorQuery", 1322, true, uint64(errs.ErSpBadCursorQuery)},
	{"ErSpBadCursorSelect", 1323, true, uint64(errs.ErSpBadCursorSelect)},
	{"ErSpCursorMismatch", 1324, true, uint64(errs.ErSpCursorMismatch)},
	{"ErSpCursorAlreadyOpen", 1325, true, uint64(errs.ErSpCursorAlreadyOpen)},
	{"ErSpCursorNotOpen", 1326, true, uint64(errs.ErSpCursorNotOpen)},
	{"ErSpUndeclaredVar", 1327, true, uint64(errs.ErSpUndeclaredVar)},
	{"ErSpWrongNoOfFetchArgs", 1328, true, uint64(errs.ErSpWrongNoOfFetchArgs)},
	{"ErSpFetchNoData", 1329, true, uint64(errs.ErSpFetchNoData)},
	{"ErSpDupParam", 1330, true, uint64(errs.ErSpDupParam)},
	{"ErSpDupVar", 1331, true, uint64(errs.ErSpDupVar)},
	{"ErSpDupCond", 1332, true, uint64(errs.ErSpDupCond)},
	{"ErSpDupCurs", 1333, true, uint64(errs.ErSpDupCurs)},
	{"ErSpCantAlter", 1334, true, uint64(errs.ErSpCantAlter)},
	{"ErSpSubselectNyi", 1335, true, uint64(errs.ErSpSubselectNyi)},
	{"ErStmtNotAllowedInSfOrTrg", 1336, true, uint64(errs.ErStmtNotAllowedInSfOrTrg)},
	{"ErSpVarcondAfterCurshndlr", 1337, true, uint64(errs.ErSpVarcondAfterCurshndlr)},
	{"ErSpCursorAfterHandler", 1338, true, uint64(errs.ErSpCursorAfterHandler)},
	{"ErSpCaseNotFound", 1339, true, uint64(errs.ErSpCaseNotFound)},
	{"ErFparserTooBigFile", 1340, true, uint64(errs.ErFparserTooBigFile)},
	{"ErFparserBadHeader", 1341, true, uint64(errs.ErFparserBadHeader)},
	{"ErFparserEOFInComment", 1342, true, uint64(errs.ErFparserEOFInComment)},
	{"ErFparserErrorInParameter", 1343, true, uint64(errs.ErFparserErrorInParameter)},
	{"ErFparserEOFInUnknownParameter", 1344, true, uint64(errs.ErFparserEOFInUnknownParameter)},
	{"ErViewNoExplain", 1345, true, uint64(errs.ErViewNoExplain)},
	{"ErFrmUnknownType", 1346, true, uint64(errs.ErFrmUnknownType)},
	{"ErWrongObject", 1347, true, uint64(errs.ErWrongObject)},
	{"ErNonupdateableColumn", 1348, true, uint64(errs.ErNonupdateableColumn)},
	{"ErViewSelectDerived", 1349, false, uint64(errs.ErViewSelectDerived)},
	{"ErViewSelectClause", 1350, true, uint64(errs.ErViewSelectClause)},
	{"ErViewSelectVariable", 1351, true, uint64(errs.ErViewSelectVariable)},
	{"ErViewSelectTmptable", 1352, true, uint64(errs.ErViewSelectTmptable)},
	{"ErViewWrongList", 1353, true, uint64(errs.ErViewWrongList)},
	{"ErWarnViewMerge", 1354, true, uint64(errs.ErWarnViewMerge)},
	{"ErWarnViewWithoutKey", 1355, true, uint64(errs.ErWarnViewWithoutKey)},
	{"ErViewInvalid", 1356, true, uint64(errs.ErViewInvalid)},
	{"ErSpNoDropSp", 1357, true, uint64(errs.ErSpNoDropSp)},
	{"ErSpGotoInHndlr", 1358, true, uint64(errs.ErSpGotoInHndlr)},
	{"ErTrgAlreadyExists", 1359, true, uint64(errs.ErTrgAlreadyExists)},
	{"ErTrgDoesNotExist", 1360, true, uint64(errs.ErTrgDoesNotExist)},
	{"ErTrgOnViewOrTempTable", 1361, true, uint64(errs.ErTrgOnViewOrTempTable)},
	{"ErTrgCantChangeRow", 1362, true, uint64(errs.ErTrgCantChangeRow)},
	{"ErTrgNoSuchRowInTrg", 1363, true, uint64(errs.ErTrgNoSuchRowInTrg)},
	{"ErNoDefaultForField", 1364, true, uint64(errs.ErNoDefaultForField)},
	{"ErDivisionByZero", 1365, true, uint64(errs.ErDivisionByZero)},
	{"ErTruncatedWrongValueForField", 1366, true, uint64(errs.ErTruncatedWrongValueForField)},
	{"ErIllegalValueForType", 1367, true, uint64(errs.ErIllegalValueForType)},
	{"ErViewNonupdCheck", 1368, true, uint64(errs.ErViewNonupdCheck)},
	{"ErViewCheckFailed", 1369, true, uint64(errs.ErViewCheckFailed)},
	{"ErProcaccessDeniedError", 1370, true, uint64(errs.ErProcaccessDeniedError)},
	{"ErRelayLogFail", 1371, true, uint64(errs.ErRelayLogFail)},
	{"ErPasswdLength", 1372, true, uint64(errs.ErPasswdLength)},
	{"ErUnknownTargetBinlog", 1373, true, uint64(errs.ErUnknownTargetBinlog)},
	{"ErIoErrLogIndexRead", 1374, true, uint64(errs.ErIoErrLogIndexRead)},
	{"ErBinlogPurgeProhibited", 1375, true, uint64(errs.ErBinlogPurgeProhibited)},
	{"ErFseekFail", 1376, true, uint64(errs.ErFseekFail)},
	{"ErBinlogPurgeFatalErr", 1377, true, uint64(errs.ErBinlogPurgeFatalErr)},
	{"ErLogInUse", 1378, true, uint64(errs.ErLogInUse)},
	{"ErLogPurgeUnknownErr", 1379, true, uint64(errs.ErLogPurgeUnknownErr)},
	{"ErRelayLogInit", 1380, true, uint64(errs.ErRelayLogInit)},
	{"ErNoBinaryLogging", 1381, true, uint64(errs.ErNoBinaryLogging)},
	{"ErReservedSyntax", 1382, true, uint64(errs.ErReservedSyntax)},
	{"ErWsasFailed", 1383, true, uint64(errs.ErWsasFailed)},
	{"ErDiffGroupsProc", 1384, true, uint64(errs.ErDiffGroupsProc)},
	{"ErNoGroupForProc", 1385, true, uint64(errs.ErNoGroupForProc)},
	{"ErOrderWithProc", 1386, true, uint64(errs.ErOrderWithProc)},
	{"ErLoggingProhibitChangingOf", 1387, true, uint64(errs.ErLoggingProhibitChangingOf)},
	{"ErNoFileMapping", 1388, true, uint64(errs.ErNoFileMapping)},
	{"ErWrongMagic", 1389, true, uint64(errs.ErWrongMagic)},
	{"ErPsManyParam", 1390, true, uint64(errs.ErPsManyParam)},
	{"ErKeyPart0", 1391, true, uint64(errs.ErKeyPart0)},
	{"ErViewChecksum", 1392, true, uint64(errs.ErViewChecksum)},
	{"ErViewMultiupdate", 1393, true, uint64(errs.ErViewMultiupdate)},
	{"ErViewNoInsertFieldList", 1394, true, uint64(errs.ErViewNoInsertFieldList)},
	{"ErViewDeleteMergeView", 1395, true, uint64(errs.ErViewDeleteMergeView)},
	{"ErCannotUser", 1396, true, uint64(errs.ErCannotUser)},
	{"ErXaerNota", 1397, true, uint64(errs.ErXaerNota)},
	{"ErXaerInval", 1398, true, uint64(errs.ErXaerInval)},
	{"ErXaerRmfail", 1399, true, uint64(errs.ErXaerRmfail)},
	{"ErXaerOutside", 1400, true, uint64(errs.ErXaerOutside)},
	{"ErXaerRmerr", 1401, true, uint64(errs.ErXaerRmerr)},
	{"ErXaRbrollback", 1402, true, uint64(errs.ErXaRbrollback)},
	{"ErNonexistingProcGrant", 1403, true, uint64(errs.ErNonexistingProcGrant)},
	{"ErProcAutoGrantFail", 1404, true, uint64(errs.ErProcAutoGrantFail)},
	{"ErProcAutoRevokeFail", 1405, true, uint64(errs.ErProcAutoRevokeFail)},
	{"ErDataTooLong", 1406, true, uint64(errs.ErDataTooLong)},
	{"ErSpBadSqlstate", 1407, true, uint64(errs.ErSpBadSqlstate)},
	{"ErStartup", 1408, true, uint64(errs.ErStartup)},
	{"ErLoadFromFixedSizeRowsToVar", 1409, true, uint64(errs.ErLoadFromFixedSizeRowsToVar)},
	{"ErCantCreateUserWithGrant", 1410, true, uint64(errs.ErCantCreateUserWithGrant)},
	{"ErWrongValueForType", 1411, true, uint64(errs.ErWrongValueForType)},
	{"ErTableDefChanged", 1412, true, uint64(errs.ErTableDefChanged)},
	{"ErSpDupHandler", 1413, true, uint64(errs.ErSpDupHandler)},
	{"ErSpNotVarArg", 1414, true, uint64(errs.ErSpNotVarArg)},
	{"ErSpNoRetset", 1415, true, uint64(errs.ErSpNoRetset)},
	{"ErCantCreateGeometryObject", 1416, true, uint64(errs.ErCantCreateGeometryObject)},
	{"ErFailedRoutineBreakBinlog", 1417, true, uint64(errs.ErFailedRoutineBreakBinlog)},
	{"ErBinlogUnsafeRoutine", 1418, true, uint64(errs.ErBinlogUnsafeRoutine)},
	{"ErBinlogCreateRoutineNeedSuper", 1419, true, uint64(errs.ErBinlogCreateRoutineNeedSuper)},
	{"ErExecStmtWithOpenCursor", 1420, true, uint64(errs.ErExecStmtWithOpenCursor)},
	{"ErStmtHasNoOpenCursor", 1421, true, uint64(errs.ErStmtHasNoOpenCursor)},
	{"ErCommitNotAllowedInSfOrTrg", 1422, true, uint64(errs.ErCommitNotAllowedInSfOrTrg)},
	{"ErNoDefaultForViewField", 1423, true, uint64(errs.ErNoDefaultForViewField)},
	{"ErSpNoRecursion", 1424, true, uint64(errs.ErSpNoRecursion)},
	{"ErTooBigScale", 1425, true, uint64(errs.ErTooBigScale)},
	{"ErTooBigPrecision", 1426, true, uint64(errs.ErTooBigPrecision)},
	{"ErMBiggerThanD", 1427, true, uint64(errs.ErMBiggerThanD)},
	{"ErWrongLockOfSystemTable", 1428, true, uint64(errs.ErWrongLockOfSystemTable)},
	{"ErConnectToForeignDataSource", 1429, true, uint64(errs.ErConnectToForeignDataSource)},
	{"ErQueryOnForeignDataSource", 1430, true, uint64(errs.ErQueryOnForeignDataSource)},
	{"ErForeignDataSourceDoesntExist", 1431, true, uint64(errs.ErForeignDataSourceDoesntExist)},
	{"ErForeignDataStringInvalidCantCreate", 1432, true, uint64(errs.ErForeignDataStringInvalidCantCreate)},
	{"ErForeignDataStringInvalid", 1433, true, uint64(errs.ErForeignDataStringInvalid)},
	{"ErCantCreateFederatedTable", 1434, true, uint64(errs.ErCantCreateFederatedTable)},
	{"ErTrgInWrongSchema", 1435, true, uint64(errs.ErTrgInWrongSchema)},
	{"ErStackOverrunNeedMore", 1436, true, uint64(errs.ErStackOverrunNeedMore)},
	{"ErTooLongBody", 1437, true, uint64(errs.ErTooLongBody)},
	{"ErWarnCantDropDefaultKeycache", 1438, true, uint64(errs.ErWarnCantDropDefaultKeycache)},
	{"ErTooBigDisplaywidth", 1439, true, uint64(errs.ErTooBigDisplaywidth)},
	{"ErXaerDupid", 1440, true, uint64(errs.ErXaerDupid)},
	{"ErDatetimeFunctionOverflow", 1441, true, uint64(errs.ErDatetimeFunctionOverflow)},
	{"ErCantUpdateUsedTableInSfOrTrg", 1442, true, uint64(errs.ErCantUpdateUsedTableInSfOrTrg)},
	{"ErViewPreventUpdate", 1443, true, uint64(errs.ErViewPreventUpdate)},
	{"ErPsNoRecursion", 1444, true, uint64(errs.ErPsNoRecursion)},
	{"ErSpCantSetAutocommit", 1445, true, uint64(errs.ErSpCantSetAutocommit)},
	{"ErMalformedDefiner", 1446, true, uint64(errs.ErMalformedDefiner)},
	{"ErViewFrmNoUser", 1447, true, uint64(errs.ErViewFrmNoUser)},
	{"ErViewOtherUser", 1448, true, uint64(errs.ErViewOtherUser)},
	{"ErNoSuchUser", 1449, true, uint64(errs.ErNoSuchUser)},
	{"ErForbidSchemaChange", 1450, true, uint64(errs.ErForbidSchemaChange)},
	{"ErRowIsReferenced2", 1451, true, uint64(errs.ErRowIsReferenced2)},
	{"ErNoReferencedRow2", 1452, true, uint64(errs.ErNoReferencedRow2)},
	{"ErSpBadVarShadow", 1453, true, uint64(errs.ErSpBadVarShadow)},
	{"ErTrgNoDefiner", 1454, true, uint64(errs.ErTrgNoDefiner)},
	{"ErOldFileFormat", 1455, true, uint64(errs.ErOldFileFormat)},
	{"ErSpRecursionLimit", 1456, true, uint64(errs.ErSpRecursionLimit)},
	{"ErSpProcTableCorrupt", 1457, true, uint64(errs.ErSpProcTableCorrupt)},
	{"ErSpWrongName", 1458, true, uint64(errs.ErSpWrongName)},
	{"ErTableNeedsUpgrade", 1459, true, uint64(errs.ErTableNeedsUpgrade)},
	{"ErSpNoAggregate", 1460, true, uint64(errs.ErSpNoAggregate)},
	{"ErMaxPreparedStmtCountReached", 1461, true, uint64(errs.ErMaxPreparedStmtCountReached)},
	{"ErViewRecursive", 1462, true, uint64(errs.ErViewRecursive)},
	{"ErNonGroupingFieldUsed", 1463, true, uint64(errs.ErNonGroupingFieldUsed)},
	{"ErTableCantHandleSpkeys", 1464, true, uint64(errs.ErTableCantHandleSpkeys)},
	{"ErNoTriggersOnSystemSchema", 1465, true, uint64(errs.ErNoTriggersOnSystemSchema)},
	{"ErRemovedSpaces", 1466, true, uint64(errs.ErRemovedSpaces)},
	{"ErAutoincReadFailed", 1467, true, uint64(errs.ErAutoincReadFailed)},
	{"ErUsername", 1468, true, uint64(errs.ErUsername)},
	{"ErHostname", 1469, true, uint64(errs.ErHostname)},
	{"ErWrongStringLength", 1470, true, uint64(errs.ErWrongStringLength)},
	{"ErNonInsertableTable", 1471, true, uint64(errs.ErNonInsertableTable)},
	{"ErAdminWrongMrgTable", 1472, true, uint64(errs.ErAdminWrongMrgTable)},
	{"ErTooHighLevelOfNestingForSelect", 1473, true, uint64(errs.ErTooHighLevelOfNestingForSelect)},
	{"ErNameBecomesEmpty", 1474, true, uint64(errs.ErNameBecomesEmpty)},
	{"ErAmbiguousFieldTerm", 1475, true, uint64(errs.ErAmbiguousFieldTerm)},
	{"ErForeignServerExists", 1476, true, uint64(errs.ErForeignServerExists)},
	{"ErForeignServerDoesntExist", 1477, true, uint64(errs.ErForeignServerDoesntExist)},
	{"ErIllegalHaCreateOption", 1478, true, uint64(errs.ErIllegalHaCreateOption)},
	{"ErPartitionRequiresValuesError", 1479, true, uint64(errs.ErPartitionRequiresValuesError)},
	{"ErPartitionWrongValuesError", 1480, true, uint64(errs.ErPartitionWrongValuesError)},
	{"ErPartitionMaxvalueError", 1481, true, uint64(errs.ErPartitionMaxvalueError)},
	{"ErPartitionSubpartitionError", 1482, true, uint64(errs.ErPartitionSubpartitionError)},
	{"ErPartitionSubpartMixError", 1483, true, uint64(errs.ErPartitionSubpartMixError)},
	{"ErPartitionWrongNoPartError", 1484, true, uint64(errs.ErPartitionWrongNoPartError)},
	{"ErPartitionWrongNoSubpartError", 1485, true, uint64(errs.ErPartitionWrongNoSubpartError)},
	{"ErWrongExprInPartitionFuncError", 1486, true, uint64(errs.ErWrongExprInPartitionFuncError)},
	{"ErNoConstExprInRangeOrListError", 1487, true, uint64(errs.ErNoConstExprInRangeOrListError)},
	{"ErFieldNotFoundPartError", 1488, true, uint64(errs.ErFieldNotFoundPartError)},
	{"ErListOfFieldsOnlyInHashError", 1489, true, uint64(errs.ErListOfFieldsOnlyInHashError)},
	{"ErInconsistentPartitionInfoError", 1490, true, uint64(errs.ErInconsistentPartitionInfoError)},
	{"ErPartitionFuncNotAllowedError", 1491, true, uint64(errs.ErPartitionFuncNotAllowedError)},
	{"ErPartitionsMustBeDefinedError", 1492, true, uint64(errs.ErPartitionsMustBeDefinedError)},
	{"ErRangeNotIncreasingError", 1493, true, uint64(errs.ErRangeNotIncreasingError)},
	{"ErInconsistentTypeOfFunctionsError", 1494, true, uint64(errs.ErInconsistentTypeOfFunctionsError)},
	{"ErMultipleDefConstInListPartError", 1495, true, uint64(errs.ErMultipleDefConstInListPartError)},
	{"ErPartitionEntryError", 1496, true, uint64(errs.ErPartitionEntryError)},
	{"ErMixHandlerError", 1497, true, uint64(errs.ErMixHandlerError)},
	{"ErPartitionNotDefinedError", 1498, true, uint64(errs.ErPartitionNotDefinedError)},
	{"ErTooManyPartitionsError", 1499, true, uint64(errs.ErTooManyPartitionsError)},
	{"ErSubpartitionError", 1500, true, uint64(errs.ErSubpartitionError)},
	{"ErCantCreateHandlerFile", 1501, true, uint64(errs.ErCantCreateHandlerFile)},
	{"ErBlobFieldInPartFuncError", 1502, true, uint64(errs.ErBlobFieldInPartFuncError)},
	{"ErUniqueKeyNeedAllFieldsInPf", 1503, true, uint64(errs.ErUniqueKeyNeedAllFieldsInPf)},
	{"ErNoPartsError", 1504, true, uint64(errs.ErNoPartsError)},
	{"ErPartitionMgmtOnNonpartitioned", 1505, true, uint64(errs.ErPartitionMgmtOnNonpartitioned)},
	{"ErForeignKeyOnPartitioned", 1506, true, uint64(errs.ErForeignKeyOnPartitioned)},
	{"ErDropPartitionNonExistent", 1507, true, uint64(errs.ErDropPartitionNonExistent)},
	{"ErDropLastPartition", 1508, true, uint64(errs.ErDropLastPartition)},
	{"ErCoalesceOnlyOnHashPartition", 1509, true, uint64(errs.ErCoalesceOnlyOnHashPartition)},
	{"ErReorgHashOnlyOnSameNo", 1510, true, uint64(errs.ErReorgHashOnlyOnSameNo)},
	{"ErReorgNoParamError", 1511, true, uint64(errs.ErReorgNoParamError)},
	{"ErOnlyOnRangeListPartition", 1512, true, uint64(errs.ErOnlyOnRangeListPartition)},
	{"ErAddPartitionSubpartError", 1513, true, uint64(errs.ErAddPartitionSubpartError)},
	{"ErAddPartitionNoNewPartition", 1514, true, uint64(errs.ErAddPartitionNoNewPartition)},
	{"ErCoalescePartitionNoPartition", 1515, true, uint64(errs.ErCoalescePartitionNoPartition)},
	{"ErReorgPartitionNotExist", 1516, true, uint64(errs.ErReorgPartitionNotExist)},
	{"ErSameNamePartition", 1517, true, uint64(errs.ErSameNamePartition)},
	{"ErNoBinlogError", 1518, true, uint64(errs.ErNoBinlogError)},
	{"ErConsecutiveReorgPartitions", 1519, true, uint64(errs.ErConsecutiveReorgPartitions)},
	{"ErReorgOutsideRange", 1520, true, uint64(errs.ErReorgOutsideRange)},
	{"ErPartitionFunctionFailure", 1521, true, uint64(errs.ErPartitionFunctionFailure)},
	{"ErPartStateError", 1522, true, uint64(errs.ErPartStateError)},
	{"ErLimitedPartRange", 1523, true, uint64(errs.ErLimitedPartRange)},
	{"ErPluginIsNotLoaded", 1524, true, uint64(errs.ErPluginIsNotLoaded)},
	{"ErWrongValue", 1525, true, uint64(errs.ErWrongValue)},
	{"ErNoPartitionForGivenValue", 1526, true, uint64(errs.ErNoPartitionForGivenValue)},
	{"ErFilegroupOptionOnlyOnce", 1527, true, uint64(errs.ErFilegroupOptionOnlyOnce)},
	{"ErCreateFilegroupFailed", 1528, true, uint64(errs.ErCreateFilegroupFailed)},
	{"ErDropFilegroupFailed", 1529, true, uint64(errs.ErDropFilegroupFailed)},
	{"ErTablespaceAutoExtendError", 1530, true, uint64(errs.ErTablespaceAutoExtendError)},
	{"ErWrongSizeNumber", 1531, true, uint64(errs.ErWrongSizeNumber)},
	{"ErSizeOverflowError", 1532, true, uint64(errs.ErSizeOverflowError)},
	{"ErAlterFilegroupFailed", 1533, true, uint64(errs.ErAlterFilegroupFailed)},
	{"ErBinlogRowLoggingFailed", 1534, true, uint64(errs.ErBinlogRowLoggingFailed)},
	{"ErBinlogRowWrongTableDef", 1535, true, uint64(errs.ErBinlogRowWrongTableDef)},
	{"ErBinlogRowRbrToSbr", 1536, true, uint64(errs.ErBinlogRowRbrToSbr)},
	{"ErEventAlreadyExists", 1537, true, uint64(errs.ErEventAlreadyExists)},
	{"ErEventStoreFailed", 1538, true, uint64(errs.ErEventStoreFailed)},
	{"ErEventDoesNotExist", 1539, true, uint64(errs.ErEventDoesNotExist)},
	{"ErEventCantAlter", 1540, true, uint64(errs.ErEventCantAlter)},
	{"ErEventDropFailed", 1541, true, uint64(errs.ErEventDropFailed)},
	{"ErEventIntervalNotPositiveOrTooBig", 1542, true, uint64(errs.ErEventIntervalNotPositiveOrTooBig)},
	{"ErEventEndsBeforeStarts", 1543, true, uint64(errs.ErEventEndsBeforeStarts)},
	{"ErEventExecTimeInThePast", 1544, true, uint64(errs.ErEventExecTimeInThePast)},
	{"ErEventOpenTableFailed", 1545, true, uint64(errs.ErEventOpenTableFailed)},
	{"ErEventNeitherMExprNorMAt", 1546, true, uint64(errs.ErEventNeitherMExprNorMAt)},
	{"ErObsoleteColCountDoesntMatchCorrupted", 1547, true, uint64(errs.ErObsoleteColCountDoesntMatchCorrupted)},
	{"ErObsoleteCannotLoadFromTable", 1548, true, uint64(errs.ErObsoleteCannotLoadFromTable)},
	{"ErEventCannotDelete", 1549, true, uint64(errs.ErEventCannotDelete)},
	{"ErEventCompileError", 1550, true, uint64(errs.ErEventCompileError)},
	{"ErEventSameName", 1551, true, uint64(errs.ErEventSameName)},
	{"ErEventDataTooLong", 1552, true, uint64(errs.ErEventDataTooLong)},
	{"ErDropIndexFk", 1553, true, uint64(errs.ErDropIndexFk)},
	{"ErWarnDeprecatedSyntaxWithVer", 1554, true, uint64(errs.ErWarnDeprecatedSyntaxWithVer)},
	{"ErCantWriteLockLogTable", 1555, true, uint64(errs.ErCantWriteLockLogTable)},
	{"ErCantLockLogTable", 1556, true, uint64(errs.ErCantLockLogTable)},
	{"ErForeignDuplicateKeyOldUnused", 1557, true, uint64(errs.ErForeignDuplicateKeyOldUnused)},
	{"ErColCountDoesntMatchPleaseUpdate", 1558, true, uint64(errs.ErColCountDoesntMatchPleaseUpdate)},
	{"ErTempTablePreventsSwitchOutOfRbr", 1559, true, uint64(errs.ErTempTablePreventsSwitchOutOfRbr)},
	{"ErStoredFunctionPreventsSwitchBinlogFormat", 1560, true, uint64(errs.ErStoredFunctionPreventsSwitchBinlogFormat)},
	{"ErNdbCantSwitchBinlogFormat", 1561, true, uint64(errs.ErNdbCantSwitchBinlogFormat)},
	{"ErPartitionNoTemporary", 1562, true, uint64(errs.ErPartitionNoTemporary)},
	{"ErPartitionConstDomainError", 1563, true, uint64(errs.ErPartitionConstDomainError)},
	{"ErPartitionFunctionIsNotAllowed", 1564, true, uint64(errs.ErPartitionFunctionIsNotAllowed)},
	{"ErDdlLogError", 1565, true, uint64(errs.ErDdlLogError)},
	{"ErNullInValuesLessThan", 1566, true, uint64(errs.ErNullInValuesLessThan)},
	{"ErWrongPartitionName", 1567, true, uint64(errs.ErWrongPartitionName)},
	{"ErCantChangeTxCharacteristics", 1568, true, uint64(errs.ErCantChangeTxCharacteristics)},
	{"ErDupEntryAutoincrementCase", 1569, true, uint64(errs.ErDupEntryAutoincrementCase)},
	{"ErEventModifyQueueError", 1570, true, uint64(errs.ErEventModifyQueueError)},
	{"ErEventSetVarError", 1571, true, uint64(errs.ErEventSetVarError)},
	{"ErPartitionMergeError", 1572, true, uint64(errs.ErPartitionMergeError)},
	{"ErCantActivateLog", 1573, true, uint64(errs.ErCantActivateLog)},
	{"ErRbrNotAvailable", 1574, true, uint64(errs.ErRbrNotAvailable)},
	{"ErBase64DecodeError", 1575, true, uint64(errs.ErBase64DecodeError)},
	{"ErEventRecursionForbidden", 1576, true, uint64(errs.ErEventRecursionForbidden)},
	{"ErEventsDbError", 1577, true, uint64(errs.ErEventsDbError)},
	{"ErOnlyIntegersAllowed", 1578, true, uint64(errs.ErOnlyIntegersAllowed)},
	{"ErUnsuportedLogEngine", 1579, true, uint64(errs.ErUnsuportedLogEngine)},
	{"ErBadLogStatement", 1580, true, uint64(errs.ErBadLogStatement)},
	{"ErCantRenameLogTable", 1581, true, uint64(errs.ErCantRenameLogTable)},
	{"ErWrongParamcountToNativeFct", 1582, true, uint64(errs.ErWrongParamcountToNativeFct)},
	{"ErWrongParametersToNativeFct", 1583, true, uint64(errs.ErWrongParametersToNativeFct)},
	{"ErWrongParametersToStoredFct", 1584, true, uint64(errs.ErWrongParametersToStoredFct)},
	{"ErNativeFctNameCollision", 1585, true, uint64(errs.ErNativeFctNameCollision)},
	{"ErDupEntryWithKeyName", 1586, true, uint64(errs.ErDupEntryWithKeyName)},
	{"ErBinlogPurgeEmfile", 1587, true, uint64(errs.ErBinlogPurgeEmfile)},
	{"ErEventCannotCreateInThePast", 1588, true, uint64(errs.ErEventCannotCreateInThePast)},
	{"ErEventCannotAlterInThePast", 1589, true, uint64(errs.ErEventCannotAlterInThePast)},
	{"ErSlaveIncident", 1590, true, uint64(errs.ErSlaveIncident)},
	{"ErNoPartitionForGivenValueSilent", 1591, true, uint64(errs.ErNoPartitionForGivenValueSilent)},
	{"ErBinlogUnsafeStatement", 1592, true, uint64(errs.ErBinlogUnsafeStatement)},
	{"ErSlaveFatalError", 1593, false, uint64(errs.ErSlaveFatalError)},
	{"ErSlaveRelayLogReadFailure", 1594, true, uint64(errs.ErSlaveRelayLogReadFailure)},
	{"ErSlaveRelayLogWriteFailure", 1595, true, uint64(errs.ErSlaveRelayLogWriteFailure)},
	{"ErSlaveCreateEventFailure", 1596, true, uint64(errs.ErSlaveCreateEventFailure)},
	{"ErSlaveMasterComFailure", 1597, true, uint64(errs.ErSlaveMasterComFailure)},
	{"ErBinlogLoggingImpossible", 1598, true, uint64(errs.ErBinlogLoggingImpossible)},
	{"ErViewNoCreationCtx", 1599, true, uint64(errs.ErViewNoCreationCtx)},
	{"ErViewInvalidCreationCtx", 1600, true, uint64(errs.ErViewInvalidCreationCtx)},
	{"ErSrInvalidCreationCtx", 1601, true, uint64(errs.ErSrInvalidCreationCtx)},
	{"ErTrgCorruptedFile", 1602, true, uint64(errs.ErTrgCorruptedFile)},
	{"ErTrgNoCreationCtx", 1603, true, uint64(errs.ErTrgNoCreationCtx)},
	{"ErTrgInvalidCreationCtx", 1604, true, uint64(errs.ErTrgInvalidCreationCtx)},
	{"ErEventInvalidCreationCtx", 1605, true, uint64(errs.ErEventInvalidCreationCtx)},
	{"ErTrgCantOpenTable", 1606, true, uint64(errs.ErTrgCantOpenTable)},
	{"ErCantCreateSroutine", 1607, true, uint64(errs.ErCantCreateSroutine)},
	{"ErNeverUsed", 1608, true, uint64(errs.ErNeverUsed)},
	{"ErNoFormatDescriptionEventBeforeBinlogStatement", 1609, true, uint64(errs.ErNoFormatDescriptionEventBeforeBinlogStatement)},
	{"ErSlaveCorruptEvent", 1610, true, uint64(errs.ErSlaveCorruptEvent)},
	{"ErLoadDataInvalidColumnUnused", 1611, true, uint64(errs.ErLoadDataInvalidColumnUnused)},
	{"ErLogPurgeNoFile", 1612, true, uint64(errs.ErLogPurgeNoFile)},
	{"ErXaRbtimeout", 1613, true, uint64(errs.ErXaRbtimeout)},
	{"ErXaRbdeadlock", 1614, true, uint64(errs.ErXaRbdeadlock)},
	{"ErNeedReprepare", 1615, true, uint64(errs.ErNeedReprepare)},
	{"ErDelayedNotSupported", 1616, true, uint64(errs.ErDelayedNotSupported)},
	{"ErPluginDeleteBuiltin", 1619, true, uint64(errs.ErPluginDeleteBuiltin)},
	{"ErVariableIsReadonly", 1621, true, uint64(errs.ErVariableIsReadonly)},
	{"ErWarnEngineTransactionRollback", 1622, true, uint64(errs.ErWarnEngineTransactionRollback)},
	{"ErSlaveHeartbeatFailure", 1623, true, uint64(errs.ErSlaveHeartbeatFailure)},
	{"ErSlaveHeartbeatValueOutOfRange", 1624, true, uint64(errs.ErSlaveHeartbeatValueOutOfRange)},
	{"ErNdbReplicationSchemaError", 1625, true, uint64(errs.ErNdbReplicationSchemaError)},
	{"ErConflictFnParseError", 1626, true, uint64(errs.ErConflictFnParseError)},
	{"ErExceptionsWriteError", 1627, true, uint64(errs.ErExceptionsWriteError)},
	{"ErTooLongTableComment", 1628, true, uint64(errs.ErTooLongTableComment)},
	{"ErTooLongFieldComment", 1629, true, uint64(errs.ErTooLongFieldComment)},
	{"ErFuncInexistentNameCollision", 1630, true, uint64(errs.ErFuncInexistentNameCollision)},
	{"ErDatabaseName", 1631, true, uint64(errs.ErDatabaseName)},
	{"ErTableName", 1632, true, uint64(errs.ErTableName)},
	{"ErPartitionName", 1633, true, uint64(errs.ErPartitionName)},
	{"ErSubpartitionName", 1634, true, uint64(errs.ErSubpartitionName)},
	{"ErTemporaryName", 1635, true, uint64(errs.ErTemporaryName)},
	{"ErRenamedName", 1636, true, uint64(errs.ErRenamedName)},
	{"ErTooManyConcurrentTrxs", 1637, true, uint64(errs.ErTooManyConcurrentTrxs)},
	{"ErDebugSyncTimeout", 1639, true, uint64(errs.ErDebugSyncTimeout)},
	{"ErDebugSyncHitLimit", 1640, true, uint64(errs.ErDebugSyncHitLimit)},
	{"ErDupSignalSet", 1641, true, uint64(errs.ErDupSignalSet)},
	{"ErSignalWarn", 1642, true, uint64(errs.ErSignalWarn)},
	{"ErSignalNotFound", 1643, true, uint64(errs.ErSignalNotFound)},
	{"ErSignalException", 1644, true, uint64(errs.ErSignalException)},
	{"ErResignalWithoutActiveHandler", 1645, true, uint64(errs.ErResignalWithoutActiveHandler)},
	{"ErSignalBadConditionType", 1646, true, uint64(errs.ErSignalBadConditionType)},
	{"ErCondItemTooLong", 1648, true, uint64(errs.ErCondItemTooLong)},
	{"ErUnknownLocale", 1649, true, uint64(errs.ErUnknownLocale)},
	{"ErSlaveIgnoreServerIds", 1650, true, uint64(errs.ErSlaveIgnoreServerIds)},
	{"ErQueryCacheDisabled", 1651, true, uint64(errs.ErQueryCacheDisabled)},
	{"ErSameNamePartitionField", 1652, true, uint64(errs.ErSameNamePartitionField)},
	{"ErPartitionColumnListError", 1653, true, uint64(errs.ErPartitionColumnListError)},
	{"ErWrongTypeColumnValueError", 1654, true, uint64(errs.ErWrongTypeColumnValueError)},
	{"ErTooManyPartitionFuncFieldsError", 1655, true, uint64(errs.ErTooManyPartitionFuncFieldsError)},
	{"ErMaxvalueInValuesIn", 1656, true, uint64(errs.ErMaxvalueInValuesIn)},
	{"ErTooManyValuesError", 1657, true, uint64(errs.ErTooManyValuesError)},
	{"ErRowSinglePartitionFieldError", 1658, true, uint64(errs.ErRowSinglePartitionFieldError)},
	{"ErFieldTypeNotAllowedAsPartitionField", 1659, true, uint64(errs.ErFieldTypeNotAllowedAsPartitionField)},
	{"ErPartitionFieldsTooLong", 1660, true, uint64(errs.ErPartitionFieldsTooLong)},
	{"ErBinlogRowEngineAndStmtEngine", 1661, true, uint64(errs.ErBinlogRowEngineAndStmtEngine)},
	{"ErBinlogRowModeAndStmtEngine", 1662, true, uint64(errs.ErBinlogRowModeAndStmtEngine)},
	{"ErBinlogUnsafeAndStmtEngine", 1663, true, uint64(errs.ErBinlogUnsafeAndStmtEngine)},
	{"ErBinlogRowInjectionAndStmtEngine", 1664, true, uint64(errs.ErBinlogRowInjectionAndStmtEngine)},
	{"ErBinlogStmtModeAndRowEngine", 1665, true, uint64(errs.ErBinlogStmtModeAndRowEngine)},
	{"ErBinlogRowInjectionAndStmtMode", 1666, true, uint64(errs.ErBinlogRowInjectionAndStmtMode)},
	{"ErBinlogMultipleEnginesAndSelfLoggingEngine", 1667, true, uint64(errs.ErBinlogMultipleEnginesAndSelfLoggingEngine)},
	{"ErBinlogUnsafeLimit", 1668, true, uint64(errs.ErBinlogUnsafeLimit)},
	{"ErUnused4", 1669, false, uint64(errs.ErUnused4)},
	{"ErBinlogUnsafeSystemTable", 1670, true, uint64(errs.ErBinlogUnsafeSystemTable)},
	{"ErBinlogUnsafeAutoincColumns", 1671, true, uint64(errs.ErBinlogUnsafeAutoincColumns)},
	{"ErBinlogUnsafeUdf", 1672, true, uint64(errs.ErBinlogUnsafeUdf)},
	{"ErBinlogUnsafeSystemVariable", 1673, true, uint64(errs.ErBinlogUnsafeSystemVariable)},
	{"ErBinlogUnsafeSystemFunction", 1674, true, uint64(errs.ErBinlogUnsafeSystemFunction)},
	{"ErBinlogUnsafeNontransAfterTrans", 1675, true, uint64(errs.ErBinlogUnsafeNontransAfterTrans)},
	{"ErMessageAndStatement", 1676, true, uint64(errs.ErMessageAndStatement)},
	{"ErSlaveConversionFailed", 1677, true, uint64(errs.ErSlaveConversionFailed)},
	{"ErSlaveCantCreateConversion", 1678, true, uint64(errs.ErSlaveCantCreateConversion)},
	{"ErInsideTransactionPreventsSwitchBinlogFormat", 1679, true, uint64(errs.ErInsideTransactionPreventsSwitchBinlogFormat)},
	{"ErPathLength", 1680, true, uint64(errs.ErPathLength)},
	{"ErWarnDeprecatedSyntaxNoReplacement", 1681, true, uint64(errs.ErWarnDeprecatedSyntaxNoReplacement)},
	{"ErWrongNativeTableStructure", 1682, true, uint64(errs.ErWrongNativeTableStructure)},
	{"ErWrongPerfschemaUsage", 1683, true, uint64(errs.ErWrongPerfschemaUsage)},
	{"ErWarnISSkippedTable", 1684, true, uint64(errs.ErWarnISSkippedTable)},
	{"ErInsideTransactionPreventsSwitchBinlogDirect", 1685, true, uint64(errs.ErInsideTransactionPreventsSwitchBinlogDirect)},
	{"ErStoredFunctionPreventsSwitchBinlogDirect", 1686, true, uint64(errs.ErStoredFunctionPreventsSwitchBinlogDirect)},
	{"ErSpatialMustHaveGeomCol", 1687, true, uint64(errs.ErSpatialMustHaveGeomCol)},
	{"ErTooLongIndexComment", 1688, true, uint64(errs.ErTooLongIndexComment)},
	{"ErLockAborted", 1689, true, uint64(errs.ErLockAborted)},
	{"ErDataOutOfRange", 1690, true, uint64(errs.ErDataOutOfRange)},
	{"ErWrongSpvarTypeInLimit", 1691, true, uint64(errs.ErWrongSpvarTypeInLimit)},
	{"ErBinlogUnsafeMultipleEnginesAndSelfLoggingEngine", 1692, true, uint64(errs.ErBinlogUnsafeMultipleEnginesAndSelfLoggingEngine)},
	{"ErBinlogUnsafeMixedStatement", 1693, true, uint64(errs.ErBinlogUnsafeMixedStatement)},
	{"ErInsideTransactionPreventsSwitchSQLLogBin", 1694, true, uint64(errs.ErInsideTransactionPreventsSwitchSQLLogBin)},
	{"ErStoredFunctionPreventsSwitchSQLLogBin", 1695, true, uint64(errs.ErStoredFunctionPreventsSwitchSQLLogBin)},
	{"ErFailedReadFromParFile", 1696, true, uint64(errs.ErFailedReadFromParFile)},
	{"ErValuesIsNotIntTypeError", 1697, true, uint64(errs.ErValuesIsNotIntTypeError)},
	{"ErAccessDeniedNoPasswordError", 1698, true, uint64(errs.ErAccessDeniedNoPasswordError)},
	{"ErSetPasswordAuthPlugin", 1699, true, uint64(errs.ErSetPasswordAuthPlugin)},
	{"ErGrantPluginUserExists", 1700, true, uint64(errs.ErGrantPluginUserExists)},
	{"ErTruncateIllegalFk", 1701, true, uint64(errs.ErTruncateIllegalFk)},
	{"ErPluginIsPermanent", 1702, true, uint64(errs.ErPluginIsPermanent)},
	{"ErSlaveHeartbeatValueOutOfRangeMin", 1703, true, uint64(errs.ErSlaveHeartbeatValueOutOfRangeMin)},
	{"ErSlaveHeartbeatValueOutOfRangeMax", 1704, true, uint64(errs.ErSlaveHeartbeatValueOutOfRangeMax)},
	{"ErStmtCacheFull", 1705, true, uint64(errs.ErStmtCacheFull)},
	{"ErMultiUpdateKeyConflict", 1706, true, uint64(errs.ErMultiUpdateKeyConflict)},
	{"ErTableNeedsRebuild", 1707, true, uint64(errs.ErTableNeedsRebuild)},
	{"ErIndexColumnTooLong", 1709, true, uint64(errs.ErIndexColumnTooLong)},
	{"ErErrorInTriggerBody", 1710, true, uint64(errs.ErErrorInTriggerBody)},
	{"ErErrorInUnknownTriggerBody", 1711, true, uint64(errs.ErErrorInUnknownTriggerBody)},
	{"ErIndexCorrupt", 1712, true, uint64(errs.ErIndexCorrupt)},
	{"ErUndoRecordTooBig", 1713, true, uint64(errs.ErUndoRecordTooBig)},
	{"ErBinlogUnsafeInsertIgnoreSelect", 1714, true, uint64(errs.ErBinlogUnsafeInsertIgnoreSelect)},
	{"ErBinlogUnsafeInsertSelectUpdate", 1715, true, uint64(errs.ErBinlogUnsafeInsertSelectUpdate)},
	{"ErBinlogUnsafeReplaceSelect", 1716, true, uint64(errs.ErBinlogUnsafeReplaceSelect)},
	{"ErBinlogUnsafeCreateIgnoreSelect", 1717, true, uint64(errs.ErBinlogUnsafeCreateIgnoreSelect)},
	{"ErBinlogUnsafeCreateReplaceSelect", 1718, true, uint64(errs.ErBinlogUnsafeCreateReplaceSelect)},
	{"ErBinlogUnsafeUpdateIgnore", 1719, true, uint64(errs.ErBinlogUnsafeUpdateIgnore)},
	{"ErPluginNoUninstall", 1720, true, uint64(errs.ErPluginNoUninstall)},
	{"ErPluginNoInstall", 1721, true, uint64(errs.ErPluginNoInstall)},
	{"ErBinlogUnsafeWriteAutoincSelect", 1722, true, uint64(errs.ErBinlogUnsafeWriteAutoincSelect)},
	{"ErBinlogUnsafeCreateSelectAutoinc", 1723, true, uint64(errs.ErBinlogUnsafeCreateSelectAutoinc)},
	{"ErBinlogUnsafeInsertTwoKeys", 1724, true, uint64(errs.ErBinlogUnsafeInsertTwoKeys)},
	{"ErTableInFkCheck", 1725, true, uint64(errs.ErTableInFkCheck)},
	{"ErUnsupportedEngine", 1726, true, uint64(errs.ErUnsupportedEngine)},
	{"ErBinlogUnsafeAutoincNotFirst", 1727, true, uint64(errs.ErBinlogUnsafeAutoincNotFirst)},
	{"ErCannotLoadFromTableV2", 1728, true, uint64(errs.ErCannotLoadFromTableV2)},
	{"ErMasterDelayValueOutOfRange", 1729, true, uint64(errs.ErMasterDelayValueOutOfRange)},
	{"ErOnlyFdAndRbrEventsAllowedInBinlogStatement", 1730, true, uint64(errs.ErOnlyFdAndRbrEventsAllowedInBinlogStatement)},
	{"ErPartitionExchangeDifferentOption", 1731, true, uint64(errs.ErPartitionExchangeDifferentOption)},
	{"ErPartitionExchangePartTable", 1732, true, uint64(errs.ErPartitionExchangePartTable)},
	{"ErPartitionExchangeTempTable", 1733, true, uint64(errs.ErPartitionExchangeTempTable)},
	{"ErPartitionInsteadOfSubpartition", 1734, true, uint64(errs.ErPartitionInsteadOfSubpartition)},
	{"ErUnknownPartition", 1735, true, uint64(errs.ErUnknownPartition)},
	{"ErTablesDifferentMetadata", 1736, true, uint64(errs.ErTablesDifferentMetadata)},
	{"ErRowDoesNotMatchPartition", 1737, true, uint64(errs.ErRowDoesNotMatchPartition)},
	{"ErBinlogCacheSizeGreaterThanMax", 1738, true, uint64(errs.ErBinlogCacheSizeGreaterThanMax)},
	{"ErWarnIndexNotApplicable", 1739, true, uint64(errs.ErWarnIndexNotApplicable)},
	{"ErPartitionExchangeForeignKey", 1740, true, uint64(errs.ErPartitionExchangeForeignKey)},
	{"ErNoSuchKeyValue", 1741, true, uint64(errs.ErNoSuchKeyValue)},
	{"ErRplInfoDataTooLong", 1742, true, uint64(errs.ErRplInfoDataTooLong)},
	{"ErNetworkReadEventChecksumFailure", 1743, true, uint64(errs.ErNetworkReadEventChecksumFailure)},
	{"ErBinlogReadEventChecksumFailure", 1744, true, uint64(errs.ErBinlogReadEventChecksumFailure)},
	{"ErBinlogStmtCacheSizeGreaterThanMax", 1745, true, uint64(errs.ErBinlogStmtCacheSizeGreaterThanMax)},
	{"ErCantUpdateTableInCreateTableSelect", 1746, true, uint64(errs.ErCantUpdateTableInCreateTableSelect)},
	{"ErPartitionClauseOnNonpartitioned", 1747, true, uint64(errs.ErPartitionClauseOnNonpartitioned)},
	{"ErRowDoesNotMatchGivenPartitionSet", 1748, true, uint64(errs.ErRowDoesNotMatchGivenPartitionSet)},
	{"ErNoSuchPartitionUnused", 1749, true, uint64(errs.ErNoSuchPartitionUnused)},
	{"ErChangeRplInfoRepositoryFailure", 1750, true, uint64(errs.ErChangeRplInfoRepositoryFailure)},
	{"ErWarningNotCompleteRollbackWithCreatedTempTable", 1751, true, uint64(errs.ErWarningNotCompleteRollbackWithCreatedTempTable)},
	{"ErWarningNotCompleteRollbackWithDroppedTempTable", 1752, true, uint64(errs.ErWarningNotCompleteRollbackWithDroppedTempTable)},
	{"ErMtsFeatureIsNotSupported", 1753, true, uint64(errs.ErMtsFeatureIsNotSupported)},
	{"ErMtsUpdatedDbsGreaterMax", 1754, true, uint64(errs.ErMtsUpdatedDbsGreaterMax)},
	{"ErMtsCantParallel", 1755, true, uint64(errs.ErMtsCantParallel)},
	{"ErMtsInconsistentData", 1756, true, uint64(errs.ErMtsInconsistentData)},
	{"ErFulltextNotSupportedWithPartitioning", 1757, true, uint64(errs.ErFulltextNotSupportedWithPartitioning)},
	{"ErDaInvalidConditionNumber", 1758, true, uint64(errs.ErDaInvalidConditionNumber)},
	{"ErInsecurePlainText", 1759, true, uint64(errs.ErInsecurePlainText)},
	{"ErInsecureChangeMaster", 1760, true, uint64(errs.ErInsecureChangeMaster)},
	{"ErForeignDuplicateKeyWithChildInfo", 1761, true, uint64(errs.ErForeignDuplicateKeyWithChildInfo)},
	{"ErForeignDuplicateKeyWithoutChildInfo", 1762, true, uint64(errs.ErForeignDuplicateKeyWithoutChildInfo)},
	{"ErSqlthreadWithSecureSlave", 1763, true, uint64(errs.ErSqlthreadWithSecureSlave)},
	{"ErTableHasNoFt", 1764, true, uint64(errs.ErTableHasNoFt)},
	{"ErVariableNotSettableInSfOrTrigger", 1765, true, uint64(errs.ErVariableNotSettableInSfOrTrigger)},
	{"ErVariableNotSettableInTransaction", 1766, true, uint64(errs.ErVariableNotSettableInTransaction)},
	{"ErGTIDNextIsNotInGTIDNextList", 1767, true, uint64(errs.ErGTIDNextIsNotInGTIDNextList)},
	{"ErCantChangeGTIDNextInTransaction", 1768, true, uint64(errs.ErCantChangeGTIDNextInTransaction)},
	{"ErSetStatementCannotInvokeFunction", 1769, true, uint64(errs.ErSetStatementCannotInvokeFunction)},
	{"ErGTIDNextCantBeAutomaticIfGTIDNextListIsNonNull", 1770, true, uint64(errs.ErGTIDNextCantBeAutomaticIfGTIDNextListIsNonNull)},
	{"ErSkippingLoggedTransaction", 1771, true, uint64(errs.ErSkippingLoggedTransaction)},
	{"ErMalformedGTIDSetSpecification", 1772, true, uint64(errs.ErMalformedGTIDSetSpecification)},
	{"ErMalformedGTIDSetEncoding", 1773, true, uint64(errs.ErMalformedGTIDSetEncoding)},
	{"ErMalformedGTIDSpecification", 1774, true, uint64(errs.ErMalformedGTIDSpecification)},
	{"ErGnoExhausted", 1775, true, uint64(errs.ErGnoExhausted)},
	{"ErBadSlaveAutoPosition", 1776, true, uint64(errs.ErBadSlaveAutoPosition)},
	{"ErAutoPositionRequiresGTIDModeNotOff", 1777, true, uint64(errs.ErAutoPositionRequiresGTIDModeNotOff)},
	{"ErCantDoImplicitCommitInTrxWhenGTIDNextIsSet", 1778, true, uint64(errs.ErCantDoImplicitCommitInTrxWhenGTIDNextIsSet)},
	{"ErGTIDModeOnRequiresEnforceGTIDConsistencyOn", 1779, true, uint64(errs.ErGTIDModeOnRequiresEnforceGTIDConsistencyOn)},
	{"ErGTIDModeRequiresBinlog", 1780, true, uint64(errs.ErGTIDModeRequiresBinlog)},
	{"ErCantSetGTIDNextToGTIDWhenGTIDModeIsOff", 1781, true, uint64(errs.ErCantSetGTIDNextToGTIDWhenGTIDModeIsOff)},
	{"ErCantSetGTIDNextToAnonymousWhenGTIDModeIsOn", 1782, true, uint64(errs.ErCantSetGTIDNextToAnonymousWhenGTIDModeIsOn)},
	{"ErCantSetGTIDNextListToNonNullWhenGTIDModeIsOff", 1783, true, uint64(errs.ErCantSetGTIDNextListToNonNullWhenGTIDModeIsOff)},
	{"ErFoundGTIDEventWhenGTIDModeIsOffUnused", 1784, true, uint64(errs.ErFoundGTIDEventWhenGTIDModeIsOffUnused)},
	{"ErGTIDUnsafeNonTransactionalTable", 1785, true, uint64(errs.ErGTIDUnsafeNonTransactionalTable)},
	{"ErGTIDUnsafeCreateSelect", 1786, true, uint64(errs.ErGTIDUnsafeCreateSelect)},
	{"ErGTIDUnsafeCreateDropTemporaryTableInTransaction", 1787, true, uint64(errs.ErGTIDUnsafeCreateDropTemporaryTableInTransaction)},
	{"ErGTIDModeCanOnlyChangeOneStepAtATime", 1788, true, uint64(errs.ErGTIDModeCanOnlyChangeOneStepAtATime)},
	{"ErMasterHasPurgedRequiredGTIDs", 1789, true, uint64(errs.ErMasterHasPurgedRequiredGTIDs)},
	{"ErCantSetGTIDNextWhenOwningGTID", 1790, true, uint64(errs.ErCantSetGTIDNextWhenOwningGTID)},
	{"ErUnknownExplainFormat", 1791, true, uint64(errs.ErUnknownExplainFormat)},
	{"ErCantExecuteInReadOnlyTransaction", 1792, true, uint64(errs.ErCantExecuteInReadOnlyTransaction)},
	{"ErTooLongTablePartitionComment", 1793, true, uint64(errs.ErTooLongTablePartitionComment)},
	{"ErSlaveConfiguration", 1794, true, uint64(errs.ErSlaveConfiguration)},
	{"ErInnodbFtLimit", 1795, true, uint64(errs.ErInnodbFtLimit)},
	{"ErInnodbNoFtTempTable", 1796, true, uint64(errs.ErInnodbNoFtTempTable)},
	{"ErInnodbFtWrongDocidColumn", 1797, true, uint64(errs.ErInnodbFtWrongDocidColumn)},
	{"ErInnodbFtWrongDocidIndex", 1798, true, uint64(errs.ErInnodbFtWrongDocidIndex)},
	{"ErInnodbOnlineLogTooBig", 1799, true, uint64(errs.ErInnodbOnlineLogTooBig)},
	{"ErUnknownAlterAlgorithm", 1800, true, uint64(errs.ErUnknownAlterAlgorithm)},
	{"ErUnknownAlterLock", 1801, true, uint64(errs.ErUnknownAlterLock)},
	{"ErMtsChangeMasterCantRunWithGaps", 1802, true, uint64(errs.ErMtsChangeMasterCantRunWithGaps)},
	{"ErMtsRecoveryFailure", 1803, true, uint64(errs.ErMtsRecoveryFailure)},
	{"ErMtsResetWorkers", 1804, true, uint64(errs.ErMtsResetWorkers)},
	{"ErColCountDoesntMatchCorruptedV2", 1805, true, uint64(errs.ErColCountDoesntMatchCorruptedV2)},
	{"ErSlaveSilentRetryTransaction", 1806, true, uint64(errs.ErSlaveSilentRetryTransaction)},
	{"ErDiscardFkChecksRunning", 1807, true, uint64(errs.ErDiscardFkChecksRunning)},
	{"ErTableSchemaMismatch", 1808, true, uint64(errs.ErTableSchemaMismatch)},
	{"ErTableInSystemTablespace", 1809, true, uint64(errs.ErTableInSystemTablespace)},
	{"ErIoReadError", 1810, true, uint64(errs.ErIoReadError)},
	{"ErIoWriteError", 1811, true, uint64(errs.ErIoWriteError)},
	{"ErTablespaceMissing", 1812, true, uint64(errs.ErTablespaceMissing)},
	{"ErTablespaceExists", 1813, true, uint64(errs.ErTablespaceExists)},
	{"ErTablespaceDiscarded", 1814, true, uint64(errs.ErTablespaceDiscarded)},
	{"ErInternalError", 1815, true, uint64(errs.ErInternalError)},
	{"ErInnodbImportError", 1816, true, uint64(errs.ErInnodbImportError)},
	{"ErInnodbIndexCorrupt", 1817, true, uint64(errs.ErInnodbIndexCorrupt)},
	{"ErInvalidYearColumnLength", 1818, true, uint64(errs.ErInvalidYearColumnLength)},
	{"ErNotValidPassword", 1819, true, uint64(errs.ErNotValidPassword)},
	{"ErMustChangePassword", 1820, true, uint64(errs.ErMustChangePassword)},
	{"ErFkNoIndexChild", 1821, true, uint64(errs.ErFkNoIndexChild)},
	{"ErFkNoIndexParent", 1822, true, uint64(errs.ErFkNoIndexParent)},
	{"ErFkFailAddSystem", 1823, true, uint64(errs.ErFkFailAddSystem)},
	{"ErFkCannotOpenParent", 1824, true, uint64(errs.ErFkCannotOpenParent)},
	{"ErFkIncorrectOption", 1825, true, uint64(errs.ErFkIncorrectOption)},
	{"ErFkDupName", 1826, true, uint64(errs.ErFkDupName)},
	{"ErPasswordFormat", 1827, true, uint64(errs.ErPasswordFormat)},
	{"ErFkColumnCannotDrop", 1828, true, uint64(errs.ErFkColumnCannotDrop)},
	{"ErFkColumnCannotDropChild", 1829, true, uint64(errs.ErFkColumnCannotDropChild)},
	{"ErFkColumnNotNull", 1830, true, uint64(errs.ErFkColumnNotNull)},
	{"ErDupIndex", 1831, true, uint64(errs.ErDupIndex)},
	{"ErFkColumnCannotChange", 1832, true, uint64(errs.ErFkColumnCannotChange)},
	{"ErFkColumnCannotChangeChild", 1833, true, uint64(errs.ErFkColumnCannotChangeChild)},
	{"ErUnused5", 1834, false, uint64(errs.ErUnused5)},
	{"ErMalformedPacket", 1835, true, uint64(errs.ErMalformedPacket)},
	{"ErReadOnlyMode", 1836, true, uint64(errs.ErReadOnlyMode)},
	{"ErGTIDNextTypeUndefinedGroup", 1837, false, uint64(errs.ErGTIDNextTypeUndefinedGroup)},
	{"ErVariableNotSettableInSp", 1838, true, uint64(errs.ErVariableNotSettableInSp)},
	{"ErCantSetGTIDPurgedWhenGTIDModeIsOff", 1839, true, uint64(errs.ErCantSetGTIDPurgedWhenGTIDModeIsOff)},
	{"ErCantSetGTIDPurgedWhenGTIDExecutedIsNotEmpty", 1840, true, uint64(errs.ErCantSetGTIDPurgedWhenGTIDExecutedIsNotEmpty)},
	{"ErCantSetGTIDPurgedWhenOwnedGTIDsIsNotEmpty", 1841, true, uint64(errs.ErCantSetGTIDPurgedWhenOwnedGTIDsIsNotEmpty)},
	{"ErGTIDPurgedWasChanged", 1842, true, uint64(errs.ErGTIDPurgedWasChanged)},
	{"ErGTIDExecutedWasChanged", 1843, true, uint64(errs.ErGTIDExecutedWasChanged)},
	{"ErBinlogStmtModeAndNoReplTables", 1844, true, uint64(errs.ErBinlogStmtModeAndNoReplTables)},
	{"ErAlterOperationNotSupported", 1845, true, uint64(errs.ErAlterOperationNotSupported)},
	{"ErAlterOperationNotSupportedReason", 1846, true, uint64(errs.ErAlterOperationNotSupportedReason)},
	{"ErAlterOperationNotSupportedReasonCopy", 1847, true, uint64(errs.ErAlterOperationNotSupportedReasonCopy)},
	{"ErAlterOperationNotSupportedReasonPartition", 1848, true, uint64(errs.ErAlterOperationNotSupportedReasonPartition)},
	{"ErAlterOperationNotSupportedReasonFkRename", 1849, true, uint64(errs.ErAlterOperationNotSupportedReasonFkRename)},
	{"ErAlterOperationNotSupportedReasonColumnType", 1850, true, uint64(errs.ErAlterOperationNotSupportedReasonColumnType)},
	{"ErAlterOperationNotSupportedReasonFkCheck", 1851, true, uint64(errs.ErAlterOperationNotSupportedReasonFkCheck)},
	{"ErUnused6", 1852, false, uint64(errs.ErUnused6)},
	{"ErAlterOperationNotSupportedReasonNopk", 1853, true, uint64(errs.ErAlterOperationNotSupportedReasonNopk)},
	{"ErAlterOperationNotSupportedReasonAutoinc", 1854, true, uint64(errs.ErAlterOperationNotSupportedReasonAutoinc)},
	{"ErAlterOperationNotSupportedReasonHiddenFts", 1855, true, uint64(errs.ErAlterOperationNotSupportedReasonHiddenFts)},
	{"ErAlterOperationNotSupportedReasonChangeFts", 1856, true, uint64(errs.ErAlterOperationNotSupportedReasonChangeFts)},
	{"ErAlterOperationNotSupportedReasonFts", 1857, true, uint64(errs.ErAlterOperationNotSupportedReasonFts)},
	{"ErSQLSlaveSkipCounterNotSettableInGTIDMode", 1858, true, uint64(errs.ErSQLSlaveSkipCounterNotSettableInGTIDMode)},
	{"ErDupUnknownInIndex", 1859, true, uint64(errs.ErDupUnknownInIndex)},
	{"ErIdentCausesTooLongPath", 1860, true, uint64(errs.ErIdentCausesTooLongPath)},
	{"ErAlterOperationNotSupportedReasonNotNull", 1861, true, uint64(errs.ErAlterOperationNotSupportedReasonNotNull)},
	{"ErMustChangePasswordLogin", 1862, true, uint64(errs.ErMustChangePasswordLogin)},
	{"ErRowInWrongPartition", 1863, true, uint64(errs.ErRowInWrongPartition)},
	{"ErMtsEventBiggerPendingJobsSizeMax", 1864, true, uint64(errs.ErMtsEventBiggerPendingJobsSizeMax)},
	{"ErInnodbNoFtUsesParser", 1865, true, uint64(errs.ErInnodbNoFtUsesParser)},
	{"ErBinlogLogicalCorruption", 1866, true, uint64(errs.ErBinlogLogicalCorruption)},
	{"ErWarnPurgeLogInUse", 1867, true, uint64(errs.ErWarnPurgeLogInUse)},
	{"ErWarnPurgeLogIsActive", 1868, true, uint64(errs.ErWarnPurgeLogIsActive)},
	{"ErAutoIncrementConflict", 1869, true, uint64(errs.ErAutoIncrementConflict)},
	{"ErSlaveMiInitRepository", 1871, true, uint64(errs.ErSlaveMiInitRepository)},
	{"ErSlaveRliInitRepository", 1872, true, uint64(errs.ErSlaveRliInitRepository)},
	{"ErAccessDeniedChangeUserError", 1873, true, uint64(errs.ErAccessDeniedChangeUserError)},
	{"ErInnodbReadOnly", 1874, true, uint64(errs.ErInnodbReadOnly)},
	{"ErStopSlaveSQLThreadTimeout", 1875, true, uint64(errs.ErStopSlaveSQLThreadTimeout)},
	{"ErStopSlaveIoThreadTimeout", 1876, true, uint64(errs.ErStopSlaveIoThreadTimeout)},
	{"ErTableCorrupt", 1877, true, uint64(errs.ErTableCorrupt)},
	{"ErTempFileWriteFailure", 1878, true, uint64(errs.ErTempFileWriteFailure)},
	{"ErInnodbFtAuxNotHexID", 1879, true, uint64(errs.ErInnodbFtAuxNotHexID)},
	{"ErOldTemporalsUpgraded", 1880, true, uint64(errs.ErOldTemporalsUpgraded)},
	{"ErInnodbForcedRecovery", 1881, true, uint64(errs.ErInnodbForcedRecovery)},
	{"ErAesInvalidIv", 1882, true, uint64(errs.ErAesInvalidIv)},
	{"ErPluginCannotBeUninstalled", 1883, true, uint64(errs.ErPluginCannotBeUninstalled)},
	{"ErGTIDUnsafeBinlogSplittableStatementAndGTIDGroup", 1884, false, uint64(errs.ErGTIDUnsafeBinlogSplittableStatementAndGTIDGroup)},
	{"ErSlaveHasMoreGTIDsThanMaster", 1885, true, uint64(errs.ErSlaveHasMoreGTIDsThanMaster)},
	{"ErFileCorrupt", 3000, true, uint64(errs.ErFileCorrupt)},
	{"ErErrorOnMaster", 3001, true, uint64(errs.ErErrorOnMaster)},
	{"ErInconsistentError", 3002, true, uint64(errs.ErInconsistentError)},
	{"ErStorageEngineNotLoaded", 3003, true, uint64(errs.ErStorageEngineNotLoaded)},
	{"ErGetStackedDaWithoutActiveHandler", 3004, true, uint64(errs.ErGetStackedDaWithoutActiveHandler)},
	{"ErWarnLegacySyntaxConverted", 3005, true, uint64(errs.ErWarnLegacySyntaxConverted)},
	{"ErBinlogUnsafeFulltextPlugin", 3006, true, uint64(errs.ErBinlogUnsafeFulltextPlugin)},
	{"ErCannotDiscardTemporaryTable", 3007, true, uint64(errs.ErCannotDiscardTemporaryTable)},
	{"ErFkDepthExceeded", 3008, true, uint64(errs.ErFkDepthExceeded)},
	{"ErColCountDoesntMatchPleaseUpdateV2", 3009, true, uint64(errs.ErColCountDoesntMatchPleaseUpdateV2)},
	{"ErWarnTriggerDoesntHaveCreated", 3010, true, uint64(errs.ErWarnTriggerDoesntHaveCreated)},
	{"ErReferencedTrgDoesNotExist", 3011, true, uint64(errs.ErReferencedTrgDoesNotExist)},
	{"ErExplainNotSupported", 3012, true, uint64(errs.ErExplainNotSupported)},
	{"ErInvalidFieldSize", 3013, true, uint64(errs.ErInvalidFieldSize)},
	{"ErMissingHaCreateOption", 3014, true, uint64(errs.ErMissingHaCreateOption)},
	{"ErEngineOutOfMemory", 3015, true, uint64(errs.ErEngineOutOfMemory)},
	{"ErPasswordExpireAnonymousUser", 3016, true, uint64(errs.ErPasswordExpireAnonymousUser)},
	{"ErSlaveSQLThreadMustStop", 3017, true, uint64(errs.ErSlaveSQLThreadMustStop)},
	{"ErNoFtMaterializedSubquery", 3018, true, uint64(errs.ErNoFtMaterializedSubquery)},
	{"ErInnodbUndoLogFull", 3019, true, uint64(errs.ErInnodbUndoLogFull)},
	{"ErInvalidArgumentForLogarithm", 3020, true, uint64(errs.ErInvalidArgumentForLogarithm)},
	{"ErSlaveChannelIoThreadMustStop", 3021, true, uint64(errs.ErSlaveChannelIoThreadMustStop)},
	{"ErWarnOpenTempTablesMustBeZero", 3022, true, uint64(errs.ErWarnOpenTempTablesMustBeZero)},
	{"ErWarnOnlyMasterLogFileNoPos", 3023, true, uint64(errs.ErWarnOnlyMasterLogFileNoPos)},
	{"ErQueryTimeout", 3024, true, uint64(errs.ErQueryTimeout)},
	{"ErNonRoSelectDisableTimer", 3025, true, uint64(errs.ErNonRoSelectDisableTimer)},
	{"ErDupListEntry", 3026, true, uint64(errs.ErDupListEntry)},
	{"ErSQLModeNoEffect", 3027, true, uint64(errs.ErSQLModeNoEffect)},
	{"ErAggregateOrderForUnion", 3028, true, uint64(errs.ErAggregateOrderForUnion)},
	{"ErAggregateOrderNonAggQuery", 3029, true, uint64(errs.ErAggregateOrderNonAggQuery)},
	{"ErSlaveWorkerStoppedPreviousThdError", 3030, true, uint64(errs.ErSlaveWorkerStoppedPreviousThdError)},
	{"ErDontSupportSlavePreserveCommitOrder", 3031, true, uint64(errs.ErDontSupportSlavePreserveCommitOrder)},
	{"ErServerOfflineMode", 3032, true, uint64(errs.ErServerOfflineMode)},
	{"ErGisDifferentSrids", 3033, true, uint64(errs.ErGisDifferentSrids)},
	{"ErGisUnsupportedArgument", 3034, true, uint64(errs.ErGisUnsupportedArgument)},
	{"ErGisUnknownError", 3035, true, uint64(errs.ErGisUnknownError)},
	{"ErGisUnknownException", 3036, true, uint64(errs.ErGisUnknownException)},
	{"ErGisInvalidData", 3037, true, uint64(errs.ErGisInvalidData)},
	{"ErBoostGeometryEmptyInputException", 3038, true, uint64(errs.ErBoostGeometryEmptyInputException)},
	{"ErBoostGeometryCentroidException", 3039, true, uint64(errs.ErBoostGeometryCentroidException)},
	{"ErBoostGeometryOverlayInvalidInputException", 3040, true, uint64(errs.ErBoostGeometryOverlayInvalidInputException)},
	{"ErBoostGeometryTurnInfoException", 3041, true, uint64(errs.ErBoostGeometryTurnInfoException)},
	{"ErBoostGeometrySelfIntersectionPointException", 3042, true, uint64(errs.ErBoostGeometrySelfIntersectionPointException)},
	{"ErBoostGeometryUnknownException", 3043, true, uint64(errs.ErBoostGeometryUnknownException)},
	{"ErStdBadAllocError", 3044, true, uint64(errs.ErStdBadAllocError)},
	{"ErStdDomainError", 3045, true, uint64(errs.ErStdDomainError)},
	{"ErStdLengthError", 3046, true, uint64(errs.ErStdLengthError)},
	{"ErStdInvalidArgument", 3047, true, uint64(errs.ErStdInvalidArgument)},
	{"ErStdOutOfRangeError", 3048, true, uint64(errs.ErStdOutOfRangeError)},
	{"ErStdOverflowError", 3049, true, uint64(errs.ErStdOverflowError)},
	{"ErStdRangeError", 3050, true, uint64(errs.ErStdRangeError)},
	{"ErStdUnderflowError", 3051, true, uint64(errs.ErStdUnderflowError)},
	{"ErStdLogicError", 3052, true, uint64(errs.ErStdLogicError)},
	{"ErStdRuntimeError", 3053, true, uint64(errs.ErStdRuntimeError)},
	{"ErStdUnknownException", 3054, true, uint64(errs.ErStdUnknownException)},
	{"ErGisDataWrongEndianess", 3055, true, uint64(errs.ErGisDataWrongEndianess)},
	{"ErChangeMasterPasswordLength", 3056, true, uint64(errs.ErChangeMasterPasswordLength)},
	{"ErUserLockWrongName", 3057, true, uint64(errs.ErUserLockWrongName)},
	{"ErUserLockDeadlock", 3058, true, uint64(errs.ErUserLockDeadlock)},
	{"ErReplaceInaccessibleRows", 3059, true, uint64(errs.ErReplaceInaccessibleRows)},
	{"ErAlterOperationNotSupportedReasonGis", 3060, true, uint64(errs.ErAlterOperationNotSupportedReasonGis)},
	{"ErIllegalUserVar", 3061, true, uint64(errs.ErIllegalUserVar)},
	{"ErGTIDModeOff", 3062, true, uint64(errs.ErGTIDModeOff)},
	{"ErUnsupportedByReplicationThread", 3063, true, uint64(errs.ErUnsupportedByReplicationThread)},
	{"ErIncorrectType", 3064, true, uint64(errs.ErIncorrectType)},
	{"ErFieldInOrderNotSelect", 3065, true, uint64(errs.ErFieldInOrderNotSelect)},
	{"ErAggregateInOrderNotSelect", 3066, true, uint64(errs.ErAggregateInOrderNotSelect)},
	{"ErInvalidRplWildTableFilterPattern", 3067, true, uint64(errs.ErInvalidRplWildTableFilterPattern)},
	{"ErNetOkPacketTooLarge", 3068, true, uint64(errs.ErNetOkPacketTooLarge)},
	{"ErInvalidJSONData", 3069, true, uint64(errs.ErInvalidJSONData)},
	{"ErInvalidGeojsonMissingMember", 3070, true, uint64(errs.ErInvalidGeojsonMissingMember)},
	{"ErInvalidGeojsonWrongType", 3071, true, uint64(errs.ErInvalidGeojsonWrongType)},
	{"ErInvalidGeojsonUnspecified", 3072, true, uint64(errs.ErInvalidGeojsonUnspecified)},
	{"ErDimensionUnsupported", 3073, true, uint64(errs.ErDimensionUnsupported)},
	{"ErSlaveChannelDoesNotExist", 3074, true, uint64(errs.ErSlaveChannelDoesNotExist)},
	{"ErSlaveMultipleChannelsHostPort", 3075, true, uint64(errs.ErSlaveMultipleChannelsHostPort)},
	{"ErSlaveChannelNameInvalidOrTooLong", 3076, true, uint64(errs.ErSlaveChannelNameInvalidOrTooLong)},
	{"ErSlaveNewChannelWrongRepository", 3077, true, uint64(errs.ErSlaveNewChannelWrongRepository)},
	{"ErSlaveChannelDelete", 3078, true, uint64(errs.ErSlaveChannelDelete)},
	{"ErSlaveMultipleChannelsCmd", 3079, true, uint64(errs.ErSlaveMultipleChannelsCmd)},
	{"ErSlaveMaxChannelsExceeded", 3080, true, uint64(errs.ErSlaveMaxChannelsExceeded)},
	{"ErSlaveChannelMustStop", 3081, true, uint64(errs.ErSlaveChannelMustStop)},
	{"ErSlaveChannelNotRunning", 3082, true, uint64(errs.ErSlaveChannelNotRunning)},
	{"ErSlaveChannelWasRunning", 3083, true, uint64(errs.ErSlaveChannelWasRunning)},
	{"ErSlaveChannelWasNotRunning", 3084, true, uint64(errs.ErSlaveChannelWasNotRunning)},
	{"ErSlaveChannelSQLThreadMustStop", 3085, true, uint64(errs.ErSlaveChannelSQLThreadMustStop)},
	{"ErSlaveChannelSQLSkipCounter", 3086, true, uint64(errs.ErSlaveChannelSQLSkipCounter)},
	{"ErWrongFieldWithGroupV2", 3087, true, uint64(errs.ErWrongFieldWithGroupV2)},
	{"ErMixOfGroupFuncAndFieldsV2", 3088, true, uint64(errs.ErMixOfGroupFuncAndFieldsV2)},
	{"ErWarnDeprecatedSysvarUpdate", 3089, true, uint64(errs.ErWarnDeprecatedSysvarUpdate)},
	{"ErWarnDeprecatedSqlmode", 3090, true, uint64(errs.ErWarnDeprecatedSqlmode)},
	{"ErCannotLogPartialDropDatabaseWithGTID", 3091, true, uint64(errs.ErCannotLogPartialDropDatabaseWithGTID)},
	{"ErGroupReplicationConfiguration", 3092, true, uint64(errs.ErGroupReplicationConfiguration)},
	{"ErGroupReplicationRunning", 3093, true, uint64(errs.ErGroupReplicationRunning)},
	{"ErGroupReplicationApplierInitError", 3094, true, uint64(errs.ErGroupReplicationApplierInitError)},
	{"ErGroupReplicationStopApplierThreadTimeout", 3095, true, uint64(errs.ErGroupReplicationStopApplierThreadTimeout)},
	{"ErGroupReplicationCommunicationLayerSessionError", 3096, true, uint64(errs.ErGroupReplicationCommunicationLayerSessionError)},
	{"ErGroupReplicationCommunicationLayerJoinError", 3097, true, uint64(errs.ErGroupReplicationCommunicationLayerJoinError)},
	{"ErBeforeDmlValidationError", 3098, true, uint64(errs.ErBeforeDmlValidationError)},
	{"ErPreventsVariableWithoutRbr", 3099, true, uint64(errs.ErPreventsVariableWithoutRbr)},
	{"ErRunHookError", 3100, true, uint64(errs.ErRunHookError)},
	{"ErTransactionRollbackDuringCommit", 3101, true, uint64(errs.ErTransactionRollbackDuringCommit)},
	{"ErGeneratedColumnFunctionIsNotAllowed", 3102, true, uint64(errs.ErGeneratedColumnFunctionIsNotAllowed)},
	{"ErUnsupportedAlterInplaceOnVirtualColumn", 3103, true, uint64(errs.ErUnsupportedAlterInplaceOnVirtualColumn)},
	{"ErWrongFkOptionForGeneratedColumn", 3104, true, uint64(errs.ErWrongFkOptionForGeneratedColumn)},
	{"ErNonDefaultValueForGeneratedColumn", 3105, true, uint64(errs.ErNonDefaultValueForGeneratedColumn)},
	{"ErUnsupportedActionOnGeneratedColumn", 3106, true, uint64(errs.ErUnsupportedActionOnGeneratedColumn)},
	{"ErGeneratedColumnNonPrior", 3107, true, uint64(errs.ErGeneratedColumnNonPrior)},
	{"ErDependentByGeneratedColumn", 3108, true, uint64(errs.ErDependentByGeneratedColumn)},
	{"ErGeneratedColumnRefAutoInc", 3109, true, uint64(errs.ErGeneratedColumnRefAutoInc)},
	{"ErFeatureNotAvailable", 3110, true, uint64(errs.ErFeatureNotAvailable)},
	{"ErCantSetGTIDMode", 3111, true, uint64(errs.ErCantSetGTIDMode)},
	{"ErCantUseAutoPositionWithGTIDModeOff", 3112, true, uint64(errs.ErCantUseAutoPositionWithGTIDModeOff)},
	{"ErCantReplicateAnonymousWithAutoPosition", 3113, true, uint64(errs.ErCantReplicateAnonymousWithAutoPosition)},
	{"ErCantReplicateAnonymousWithGTIDModeOn", 3114, true, uint64(errs.ErCantReplicateAnonymousWithGTIDModeOn)},
	{"ErCantReplicateGTIDWithGTIDModeOff", 3115, true, uint64(errs.ErCantReplicateGTIDWithGTIDModeOff)},
	{"ErCantSetEnforceGTIDConsistencyOnWithOngoingGTIDViolatingTransactions", 3116, false, uint64(errs.ErCantSetEnforceGTIDConsistencyOnWithOngoingGTIDViolatingTransactions)},
	{"ErSetEnforceGTIDConsistencyWarnWithOngoingGTIDViolatingTransactions", 3117, false, uint64(errs.ErSetEnforceGTIDConsistencyWarnWithOngoingGTIDViolatingTransactions)},
	{"ErAccountHasBeenLocked", 3118, true, uint64(errs.ErAccountHasBeenLocked)},
	{"ErWrongTablespaceName", 3119, true, uint64(errs.ErWrongTablespaceName)},
	{"ErTablespaceIsNotEmpty", 3120, true, uint64(errs.ErTablespaceIsNotEmpty)},
	{"ErWrongFileName", 3121, true, uint64(errs.ErWrongFileName)},
	{"ErBoostGeometryInconsistentTurnsException", 3122, true, uint64(errs.ErBoostGeometryInconsistentTurnsException)},
	{"ErWarnOptimizerHintSyntaxError", 3123, true, uint64(errs.ErWarnOptimizerHintSyntaxError)},
	{"ErWarnBadMaxExecutionTime", 3124, true, uint64(errs.ErWarnBadMaxExecutionTime)},
	{"ErWarnUnsupportedMaxExecutionTime", 3125, true, uint64(errs.ErWarnUnsupportedMaxExecutionTime)},
	{"ErWarnConflictingHint", 3126, true, uint64(errs.ErWarnConflictingHint)},
	{"ErWarnUnknownQbName", 3127, true, uint64(errs.ErWarnUnknownQbName)},
	{"ErUnresolvedHintName", 3128, true, uint64(errs.ErUnresolvedHintName)},
	{"ErWarnOnModifyingGTIDExecutedTable", 3129, true, uint64(errs.ErWarnOnModifyingGTIDExecutedTable)},
	{"ErPluggableProtocolCommandNotSupported", 3130, true, uint64(errs.ErPluggableProtocolCommandNotSupported)},
	{"ErLockingServiceWrongName", 3131, true, uint64(errs.ErLockingServiceWrongName)},
	{"ErLockingServiceDeadlock", 3132, true, uint64(errs.ErLockingServiceDeadlock)},
	{"ErLockingServiceTimeout", 3133, true, uint64(errs.ErLockingServiceTimeout)},
	{"ErGisMaxPointsInGeometryOverflowed", 3134, true, uint64(errs.ErGisMaxPointsInGeometryOverflowed)},
	{"ErSQLModeMerged", 3135, true, uint64(errs.ErSQLModeMerged)},
	{"ErVtokenPluginTokenMismatch", 3136, true, uint64(errs.ErVtokenPluginTokenMismatch)},
	{"ErVtokenPluginTokenNotFound", 3137, true, uint64(errs.ErVtokenPluginTokenNotFound)},
	{"ErCantSetVariableWhenOwningGTID", 3138, true, uint64(errs.ErCantSetVariableWhenOwningGTID)},
	{"ErSlaveChannelOperationNotAllowed", 3139, true, uint64(errs.ErSlaveChannelOperationNotAllowed)},
	{"ErInvalidJSONText", 3140, true, uint64(errs.ErInvalidJSONText)},
	{"ErInvalidJSONTextInParam", 3141, true, uint64(errs.ErInvalidJSONTextInParam)},
	{"ErInvalidJSONBinaryData", 3142, true, uint64(errs.ErInvalidJSONBinaryData)},
	{"ErInvalidJSONPath", 3143, true, uint64(errs.ErInvalidJSONPath)},
	{"ErInvalidJSONCharset", 3144, true, uint64(errs.ErInvalidJSONCharset)},
	{"ErInvalidJSONCharsetInFunction", 3145, true, uint64(errs.ErInvalidJSONCharsetInFunction)},
	{"ErInvalidTypeForJSON", 3146, true, uint64(errs.ErInvalidTypeForJSON)},
	{"ErInvalidCastToJSON", 3147, true, uint64(errs.ErInvalidCastToJSON)},
	{"ErInvalidJSONPathCharset", 3148, true, uint64(errs.ErInvalidJSONPathCharset)},
	{"ErInvalidJSONPathWildcard", 3149, true, uint64(errs.ErInvalidJSONPathWildcard)},
	{"ErJSONValueTooBig", 3150, true, uint64(errs.ErJSONValueTooBig)},
	{"ErJSONKeyTooBig", 3151, true, uint64(errs.ErJSONKeyTooBig)},
	{"ErJSONUsedAsKey", 3152, true, uint64(errs.ErJSONUsedAsKey)},
	{"ErJSONVacuousPath", 3153, true, uint64(errs.ErJSONVacuousPath)},
	{"ErJSONBadOneOrAllArg", 3154, true, uint64(errs.ErJSONBadOneOrAllArg)},
	{"ErNumericJSONValueOutOfRange", 3155, true, uint64(errs.ErNumericJSONValueOutOfRange)},
	{"ErInvalidJSONValueForCast", 3156, true, uint64(errs.ErInvalidJSONValueForCast)},
	{"ErJSONDocumentTooDeep", 3157, true, uint64(errs.ErJSONDocumentTooDeep)},
	{"ErJSONDocumentNullKey", 3158, true, uint64(errs.ErJSONDocumentNullKey)},
	{"ErSecureTransportRequired", 3159, true, uint64(errs.ErSecureTransportRequired)},
	{"ErNoSecureTransportsConfigured", 3160, true, uint64(errs.ErNoSecureTransportsConfigured)},
	{"ErDisabledStorageEngine", 3161, true, uint64(errs.ErDisabledStorageEngine)},
	{"ErUserDoesNotExist", 3162, true, uint64(errs.ErUserDoesNotExist)},
	{"ErUserAlreadyExists", 3163, true, uint64(errs.ErUserAlreadyExists)},
	{"ErAuditAPIAbort", 3164, true, uint64(errs.ErAuditAPIAbort)},
	{"ErInvalidJSONPathArrayCell", 3165, true, uint64(errs.ErInvalidJSONPathArrayCell)},
	{"ErBufpoolResizeInprogress", 3166, true, uint64(errs.ErBufpoolResizeInprogress)},
	{"ErFeatureDisabledSeeDoc", 3167, true, uint64(errs.ErFeatureDisabledSeeDoc)},
	{"ErServerIsntAvailable", 3168, true, uint64(errs.ErServerIsntAvailable)},
	{"ErSessionWasKilled", 3169, true, uint64(errs.ErSessionWasKilled)},
	{"ErCapacityExceeded", 3170, true, uint64(errs.ErCapacityExceeded)},
	{"ErCapacityExceededInRangeOptimizer", 3171, true, uint64(errs.ErCapacityExceededInRangeOptimizer)},
	{"ErTableNeedsUpgPart", 3172, true, uint64(errs.ErTableNeedsUpgPart)},
	{"ErCantWaitForExecutedGTIDSetWhileOwningAGTID", 3173, true, uint64(errs.ErCantWaitForExecutedGTIDSetWhileOwningAGTID)},
	{"ErCannotAddForeignBaseColVirtual", 3174, true, uint64(errs.ErCannotAddForeignBaseColVirtual)},
	{"ErCannotCreateVirtualIndexConstraint", 3175, true, uint64(errs.ErCannotCreateVirtualIndexConstraint)},
	{"ErErrorOnModifyingGTIDExecutedTable", 3176, true, uint64(errs.ErErrorOnModifyingGTIDExecutedTable)},
	{"ErLockRefusedByEngine", 3177, true, uint64(errs.ErLockRefusedByEngine)},
	{"ErUnsupportedAlterOnlineOnVirtualColumn", 3178, true, uint64(errs.ErUnsupportedAlterOnlineOnVirtualColumn)},
	{"ErMasterKeyRotationNotSupportedBySe", 3179, true, uint64(errs.ErMasterKeyRotationNotSupportedBySe)},
	{"ErMasterKeyRotationErrorBySe", 3180, true, uint64(errs.ErMasterKeyRotationErrorBySe)},
	{"ErMasterKeyRotationBinlogFailed", 3181, true, uint64(errs.ErMasterKeyRotationBinlogFailed)},
	{"ErMasterKeyRotationSeUnavailable", 3182, true, uint64(errs.ErMasterKeyRotationSeUnavailable)},
	{"ErTablespaceCannotEncrypt", 3183, true, uint64(errs.ErTablespaceCannotEncrypt)},
	{"ErInvalidEncryptionOption", 3184, true, uint64(errs.ErInvalidEncryptionOption)},
	{"ErCannotFindKeyInKeyring", 3185, true, uint64(errs.ErCannotFindKeyInKeyring)},
	{"ErCapacityExceededInParser", 3186, true, uint64(errs.ErCapacityExceededInParser)},
	{"ErUnsupportedAlterEncryptionInplace", 3187, true, uint64(errs.ErUnsupportedAlterEncryptionInplace)},
	{"ErKeyringUdfKeyringServiceError", 3188, true, uint64(errs.ErKeyringUdfKeyringServiceError)},
	{"ErUserColumnOldLength", 3189, true, uint64(errs.ErUserColumnOldLength)},
	{"ErXServiceError", 5010, false, uint64(errs.ErXServiceError)},
	{"ErXSession", 5011, false, uint64(errs.ErXSession)},
	{"ErXInvalidArgument", 5012, false, uint64(errs.ErXInvalidArgument)},
	{"ErXMissingArgument", 5013, false, uint64(errs.ErXMissingArgument)},
	{"ErXBadInsertData", 5014, false, uint64(errs.ErXBadInsertData)},
	{"ErXCmdNumArguments", 5015, false, uint64(errs.ErXCmdNumArguments)},
	{"ErXCmdArgumentType", 5016, false, uint64(errs.ErXCmdArgumentType)},
	{"ErXCmdArgumentTVale", 5017, false, uint64(errs.ErXCmdArgumentTVale)},
	{"ErXBadUpsertData", 5018, false, uint64(errs.ErXBadUpsertData)},
	{"ErXBadUpdateData", 5050, false, uint64(errs.ErXBadUpdateData)},
	{"ErXBadTypeOfUpdate", 5051, false, uint64(errs.ErXBadTypeOfUpdate)},
	{"ErXBadColumnToUpdate", 5052, false, uint64(errs.ErXBadColumnToUpdate)},
	{"ErXBadMemberToUpdate", 5053, false, uint64(errs.ErXBadMemberToUpdate)},
	{"ErXBadStatementID", 5110, false, uint64(errs.ErXBadStatementID)},
	{"ErXBadCursorID", 5111, false, uint64(errs.ErXBadCursorID)},
	{"ErXBadSchema", 5112, false, uint64(errs.ErXBadSchema)},
	{"ErXBadTable", 5113, false, uint64(errs.ErXBadTable)},
	{"ErXBadProjection", 5114, false, uint64(errs.ErXBadProjection)},
	{"ErXDocIDMissing", 5115, false, uint64(errs.ErXDocIDMissing)},
	{"ErXDocIDDuplicate", 5116, false, uint64(errs.ErXDocIDDuplicate)},
	{"ErXDocRequiredFieldMissing", 5117, false, uint64(errs.ErXDocRequiredFieldMissing)},
	{"ErXProjBadKeyName", 5120, false, uint64(errs.ErXProjBadKeyName)},
	{"ErXBadDocPath", 5121, false, uint64(errs.ErXBadDocPath)},
	{"ErXCursorExists", 5122, false, uint64(errs.ErXCursorExists)},
	{"ErXCursorReachedEOF", 5123, false, uint64(errs.ErXCursorReachedEOF)},
	{"ErXPreparedStatementCanHaveOnCursor", 5131, false, uint64(errs.ErXPreparedStatementCanHaveOnCursor)},
	{"ErXPreparedExecuteArgumentNotSupported", 5133, false, uint64(errs.ErXPreparedExecuteArgumentNotSupported)},
	{"ErXPreparedExecuteArgumentConsistency", 5134, false, uint64(errs.ErXPreparedExecuteArgumentConsistency)},
	{"ErXExprBadOperator", 5150, false, uint64(errs.ErXExprBadOperator)},
	{"ErXExprBadNumArgs", 5151, false, uint64(errs.ErXExprBadNumArgs)},
	{"ErXExprMissingArg", 5152, false, uint64(errs.ErXExprMissingArg)},
	{"ErXExprBadTypeValue", 5153, false, uint64(errs.ErXExprBadTypeValue)},
	{"ErXExprBadValue", 5154, false, uint64(errs.ErXExprBadValue)},
	{"ErXInvalidCollection", 5156, false, uint64(errs.ErXInvalidCollection)},
	{"ErXInvalidAdminCommand", 5157, false, uint64(errs.ErXInvalidAdminCommand)},
	{"ErXExpectNotOpen", 5158, false, uint64(errs.ErXExpectNotOpen)},
	{"ErXExpectNoErrorFailed", 5159, false, uint64(errs.ErXExpectNoErrorFailed)},
	{"ErXExpectBadCondition", 5160, false, uint64(errs.ErXExpectBadCondition)},
	{"ErXExpectBadConditionValue", 5161, false, uint64(errs.ErXExpectBadConditionValue)},
	{"ErXInvalidNamespace", 5162, false, uint64(errs.ErXInvalidNamespace)},
	{"ErXBadNotice", 5163, false, uint64(errs.ErXBadNotice)},
	{"ErXCannotDisableNotice", 5164, false, uint64(errs.ErXCannotDisableNotice)},
	{"ErXBadConfiguration", 5165, false, uint64(errs.ErXBadConfiguration)},
	{"ErXMySQLXAaccountMissingPermissions", 5167, false, uint64(errs.ErXMySQLXAaccountMissingPermissions)},
	{"ErXExpectFieldExistsFailed", 5168, false, uint64(errs.ErXExpectFieldExistsFailed)},
	{"ErXBadLocking", 5169, false, uint64(errs.ErXBadLocking)},
}
