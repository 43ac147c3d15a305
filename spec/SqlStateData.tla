---------------------------- MODULE SqlStateData ----------------------------
(* SQLSTATE codes and classes, PostgreSQL appendix A: constant, value and text. *)
Codes == <<
  [n |-> "SuccessfulCompletion", c |-> "00000", t |-> "Successful Completion"],
  [n |-> "Warning", c |-> "01000", t |-> "Warning"],
  [n |-> "DynamicResultSetsReturned", c |-> "0100C", t |-> "Dynamic Result Sets Returned"],
  [n |-> "ImplicitZeroBitPadding", c |-> "01008", t |-> "Implicit Zero Bit Padding"],
  [n |-> "NullValueEliminatedInSetFunction", c |-> "01003", t |-> "Null Value Eliminated In Set Function"],
  [n |-> "PrivilegeNotGranted", c |-> "01007", t |-> "Privilege Not Granted"],
  [n |-> "PrivilegeNotRevoked", c |-> "01006", t |-> "Privilege Not Revoked"],
  [n |-> "StringDataRightTruncationWarning", c |-> "01004", t |-> "String Data Right Truncation Warning"],
  [n |-> "DeprecatedFeature", c |-> "01P01", t |-> "Deprecated Feature"],
  [n |-> "NoData", c |-> "02000", t |-> "No Data"],
  [n |-> "NoAdditionalDynamicResultSetsReturned", c |-> "02001", t |-> "No Additional Dynamic Result Sets Returned"],
  [n |-> "SQLStatementNotYetComplete", c |-> "03000", t |-> "SQL Statement Not Yet Complete"],
  [n |-> "ConnectionException", c |-> "08000", t |-> "Connection Exception"],
  [n |-> "ConnectionDoesNotExist", c |-> "08003", t |-> "Connection Does Not Exist"],
  [n |-> "ConnectionFailure", c |-> "08006", t |-> "Connection Failure"],
  [n |-> "SQLClientUnableToEstablishSQLConnection", c |-> "08001", t |-> "SQL Client Unable To Establish SQL Connection"],
  [n |-> "SQLServerRejectedEstablishmentOfSQLConnection", c |-> "08004", t |-> "SQL Server Rejected Establishment Of SQL Connection"],
  [n |-> "TransactionResolutionUnknown", c |-> "08007", t |-> "Transaction Resolution Unknown"],
  [n |-> "ProtocolViolation", c |-> "08P01", t |-> "Protocol Violation"],
  [n |-> "TriggeredActionException", c |-> "09000", t |-> "Triggered Action Exception"],
  [n |-> "FeatureNotSupported", c |-> "0A000", t |-> "Feature Not Supported"],
  [n |-> "InvalidTransactionInitiation", c |-> "0B000", t |-> "Invalid Transaction Initiation"],
  [n |-> "LocatorException", c |-> "0F000", t |-> "Locator Exception"],
  [n |-> "InvalidLocatorSpecification", c |-> "0F001", t |-> "Invalid Locator Specification"],
  [n |-> "InvalidGrantor", c |-> "0L000", t |-> "Invalid Grantor"],
  [n |-> "InvalidGrantOperation", c |-> "0LP01", t |-> "Invalid Grant Operation"],
  [n |-> "InvalidRoleSpecification", c |-> "0P000", t |-> "Invalid Role Specification"],
  [n |-> "DiagnosticsException", c |-> "0Z000", t |-> "Diagnostics Exception"],
  [n |-> "StackedDiagnosticsAccessedWithoutActiveHandler", c |-> "0Z002", t |-> "Stacked Diagnostics Accessed Without Active Handler"],
  [n |-> "CaseNotFound", c |-> "20000", t |-> "Case Not Found"],
  [n |-> "CardinalityViolation", c |-> "21000", t |-> "Cardinality Violation"],
  [n |-> "DataException", c |-> "22000", t |-> "Data Exception"],
  [n |-> "ArraySubscriptError", c |-> "2202E", t |-> "Array Subscript Error"],
  [n |-> "CharacterNotInRepertoire", c |-> "22021", t |-> "Character Not In Repertoire"],
  [n |-> "DatetimeFieldOverflow", c |-> "22008", t |-> "Datetime Field Overflow"],
  [n |-> "DivisionByZero", c |-> "22012", t |-> "Division By Zero"],
  [n |-> "ErrorInAssignment", c |-> "22005", t |-> "Error In Assignment"],
  [n |-> "EscapeCharacterConflict", c |-> "2200B", t |-> "Escape Character Conflict"],
  [n |-> "IndicatorOverflow", c |-> "22022", t |-> "Indicator Overflow"],
  [n |-> "IntervalFieldOverflow", c |-> "22015", t |-> "Interval Field Overflow"],
  [n |-> "InvalidArgumentForLogarithm", c |-> "2201E", t |-> "Invalid Argument For Logarithm"],
  [n |-> "InvalidArgumentForNtileFunction", c |-> "22014", t |-> "Invalid Argument For Ntile Function"],
  [n |-> "InvalidArgumentForNthValueFunction", c |-> "22016", t |-> "Invalid Argument For Nth Value Function"],
  [n |-> "InvalidArgumentForPowerFunction", c |-> "2201F", t |-> "Invalid Argument For Power Function"],
  [n |-> "InvalidArgumentForWidthBucketFunction", c |-> "2201G", t |-> "Invalid Argument For Width Bucket Function"],
  [n |-> "InvalidCharacterValueForCast", c |-> "22018", t |-> "Invalid Character Value For Cast"],
  [n |-> "InvalidDatetimeFormat", c |-> "22007", t |-> "Invalid Datetime Format"],
  [n |-> "InvalidEscapeCharacter", c |-> "22019", t |-> "Invalid Escape Character"],
  [n |-> "InvalidEscapeOctet", c |-> "2200D", t |-> "Invalid Escape Octet"],
  [n |-> "InvalidEscapeSequence", c |-> "22025", t |-> "Invalid Escape Sequence"],
  [n |-> "NonstandardUseOfEscapeCharacter", c |-> "22P06", t |-> "Nonstandard Use Of Escape Character"],
  [n |-> "InvalidIndicatorParameterValue", c |-> "22010", t |-> "Invalid Indicator Parameter Value"],
  [n |-> "InvalidParameterValue", c |-> "22023", t |-> "Invalid Parameter Value"],
  [n |-> "InvalidPrecedingOrFollowingSize", c |-> "22013", t |-> "Invalid Preceding Or Following Size"],
  [n |-> "InvalidRegularExpression", c |-> "2201B", t |-> "Invalid Regular Expression"],
  [n |-> "InvalidRowCountInLimitClause", c |-> "2201W", t |-> "Invalid Row Count In Limit Clause"],
  [n |-> "InvalidRowCountInResultOffsetClause", c |-> "2201X", t |-> "Invalid Row Count In Result Offset Clause"],
  [n |-> "InvalidTablesampleArgument", c |-> "2202H", t |-> "Invalid Tablesample Argument"],
  [n |-> "InvalidTablesampleRepeat", c |-> "2202G", t |-> "Invalid Tablesample Repeat"],
  [n |-> "InvalidTimeZoneDisplacementValue", c |-> "22009", t |-> "Invalid Time Zone Displacement Value"],
  [n |-> "InvalidUseOfEscapeCharacter", c |-> "2200C", t |-> "Invalid Use Of Escape Character"],
  [n |-> "MostSpecificTypeMismatch", c |-> "2200G", t |-> "Most Specific Type Mismatch"],
  [n |-> "NullDataValueNotAllowed", c |-> "22004", t |-> "Null Data Value Not Allowed"],
  [n |-> "NullDataValueNoIndicatorParameter", c |-> "22002", t |-> "Null Data Value No Indicator Parameter"],
  [n |-> "NumericValueOutOfRange", c |-> "22003", t |-> "Numeric Value Out Of Range"],
  [n |-> "SequenceGeneratorLimitExceeded", c |-> "2200H", t |-> "Sequence Generator Limit Exceeded"],
  [n |-> "StringDataLengthMismatch", c |-> "22026", t |-> "String Data Length Mismatch"],
  [n |-> "StringDataRightTruncation", c |-> "22001", t |-> "String Data Right Truncation"],
  [n |-> "SubstringError", c |-> "22011", t |-> "Substring Error"],
  [n |-> "TrimError", c |-> "22027", t |-> "Trim Error"],
  [n |-> "UnterminatedCString", c |-> "22024", t |-> "Unterminated C String"],
  [n |-> "ZeroLengthCharacterString", c |-> "2200F", t |-> "Zero Length Character String"],
  [n |-> "FloatingPointException", c |-> "22P01", t |-> "Floating Point Exception"],
  [n |-> "InvalidTextRepresentation", c |-> "22P02", t |-> "Invalid Text Representation"],
  [n |-> "InvalidBinaryRepresentation", c |-> "22P03", t |-> "Invalid Binary Representation"],
  [n |-> "BadCopyFileFormat", c |-> "22P04", t |-> "Bad Copy File Format"],
  [n |-> "UntranslatableCharacter", c |-> "22P05", t |-> "Untranslatable Character"],
  [n |-> "NotAnXMLDocument", c |-> "2200L", t |-> "Not An XML Document"],
  [n |-> "InvalidXMLDocument", c |-> "2200M", t |-> "Invalid XML Document"],
  [n |-> "InvalidXMLContent", c |-> "2200N", t |-> "Invalid XML Content"],
  [n |-> "InvalidXMLComment", c |-> "2200S", t |-> "Invalid XML Comment"],
  [n |-> "InvalidXMLProcessingInstruction", c |-> "2200T", t |-> "Invalid XML Processing Instruction"],
  [n |-> "DuplicateJSONObjectKeyValue", c |-> "22030", t |-> "Duplicate JSON Object Key Value"],
  [n |-> "InvalidArgumentForSQLJSONDatetimeFunction", c |-> "22031", t |-> "Invalid Argument For SQL/JSON Datetime Function"],
  [n |-> "InvalidJSONText", c |-> "22032", t |-> "Invalid JSON Text"],
  [n |-> "InvalidSQLJSONSubscript", c |-> "22033", t |-> "Invalid SQL/JSON Subscript"],
  [n |-> "MoreThanOneSQLJSONItem", c |-> "22034", t |-> "More Than One SQL/JSON Item"],
  [n |-> "NoSQLJSONItem", c |-> "22035", t |-> "No SQL/JSON Item"],
  [n |-> "NonNumericSQLJSONItem", c |-> "22036", t |-> "Non Numeric SQL/JSON Item"],
  [n |-> "NonUniqueKeysInAJSONObject", c |-> "22037", t |-> "Non Unique Keys In A JSON Object"],
  [n |-> "SingletonSQLJSONItemRequired", c |-> "22038", t |-> "Singleton SQL/JSON Item Required"],
  [n |-> "SQLJSONArrayNotFound", c |-> "22039", t |-> "SQL/JSON Array Not Found"],
  [n |-> "SQLJSONMemberNotFound", c |-> "2203A", t |-> "SQL/JSON Member Not Found"],
  [n |-> "SQLJSONNumberNotFound", c |-> "2203B", t |-> "SQL/JSON Number Not Found"],
  [n |-> "SQLJSONObjectNotFound", c |-> "2203C", t |-> "SQL/JSON Object Not Found"],
  [n |-> "TooManyJSONArrayElements", c |-> "2203D", t |-> "Too Many JSON Array Elements"],
  [n |-> "TooManyJSONObjectMembers", c |-> "2203E", t |-> "Too Many JSON Object Members"],
  [n |-> "SQLJSONScalarRequired", c |-> "2203F", t |-> "SQL/JSON Scalar Required"],
  [n |-> "SQLJSONItemCannotBeCastToTargetType", c |-> "2203G", t |-> "SQL/JSON Item Cannot Be Cast To Target Type"],
  [n |-> "IntegrityConstraintViolation", c |-> "23000", t |-> "Integrity Constraint Violation"],
  [n |-> "RestrictViolation", c |-> "23001", t |-> "Restrict Violation"],
  [n |-> "NotNullViolation", c |-> "23502", t |-> "Not Null Violation"],
  [n |-> "ForeignKeyViolation", c |-> "23503", t |-> "Foreign Key Violation"],
  [n |-> "UniqueViolation", c |-> "23505", t |-> "Unique Violation"],
  [n |-> "CheckViolation", c |-> "23514", t |-> "Check Violation"],
  [n |-> "ExclusionViolation", c |-> "23P01", t |-> "Exclusion Violation"],
  [n |-> "InvalidCursorState", c |-> "24000", t |-> "Invalid Cursor State"],
  [n |-> "InvalidTransactionState", c |-> "25000", t |-> "Invalid Transaction State"],
  [n |-> "ActiveSQLTransaction", c |-> "25001", t |-> "Active SQL Transaction"],
  [n |-> "BranchTransactionAlreadyActive", c |-> "25002", t |-> "Branch Transaction Already Active"],
  [n |-> "HeldCursorRequiresSameIsolationLevel", c |-> "25008", t |-> "Held Cursor Requires Same Isolation Level"],
  [n |-> "InappropriateAccessModeForBranchTransaction", c |-> "25003", t |-> "Inappropriate Access Mode For Branch Transaction"],
  [n |-> "InappropriateIsolationLevelForBranchTransaction", c |-> "25004", t |-> "Inappropriate Isolation Level For Branch Transaction"],
  [n |-> "NoActiveSQLTransactionForBranchTransaction", c |-> "25005", t |-> "No Active SQL Transaction For Branch Transaction"],
  [n |-> "ReadOnlySQLTransaction", c |-> "25006", t |-> "Read Only SQL Transaction"],
  [n |-> "SchemaAndDataStatementMixingNotSupported", c |-> "25007", t |-> "Schema And Data Statement Mixing Not Supported"],
  [n |-> "NoActiveSQLTransaction", c |-> "25P01", t |-> "No Active SQL Transaction"],
  [n |-> "InFailedSQLTransaction", c |-> "25P02", t |-> "In Failed SQL Transaction"],
  [n |-> "IdleInTransactionSessionTimeout", c |-> "25P03", t |-> "Idle In Transaction Session Timeout"],
  [n |-> "TransactionTimeout", c |-> "25P04", t |-> "Transaction Timeout"],
  [n |-> "InvalidSQLStatementName", c |-> "26000", t |-> "Invalid SQL Statement Name"],
  [n |-> "TriggeredDataChangeViolation", c |-> "27000", t |-> "Triggered Data Change Violation"],
  [n |-> "InvalidAuthorizationSpecification", c |-> "28000", t |-> "Invalid Authorization Specification"],
  [n |-> "InvalidPassword", c |-> "28P01", t |-> "Invalid Password"],
  [n |-> "DependentPrivilegeDescriptorsStillExist", c |-> "2B000", t |-> "Dependent Privilege Descriptors Still Exist"],
  [n |-> "DependentObjectsStillExist", c |-> "2BP01", t |-> "Dependent Objects Still Exist"],
  [n |-> "InvalidTransactionTermination", c |-> "2D000", t |-> "Invalid Transaction Termination"],
  [n |-> "SQLRoutineException", c |-> "2F000", t |-> "SQL Routine Exception"],
  [n |-> "FunctionExecutedNoReturnStatement", c |-> "2F005", t |-> "Function Executed No Return Statement"],
  [n |-> "SQLRoutineModifyingSQLDataNotPermitted", c |-> "2F002", t |-> "SQL Routine Modifying SQL Data Not Permitted"],
  [n |-> "SQLRoutineProhibitedSQLStatementAttempted", c |-> "2F003", t |-> "SQL Routine Prohibited SQL Statement Attempted"],
  [n |-> "SQLRoutineReadingSQLDataNotPermitted", c |-> "2F004", t |-> "SQL Routine Reading SQL Data Not Permitted"],
  [n |-> "InvalidCursorName", c |-> "34000", t |-> "Invalid Cursor Name"],
  [n |-> "ExternalRoutineException", c |-> "38000", t |-> "External Routine Exception"],
  [n |-> "ContainingSQLNotPermitted", c |-> "38001", t |-> "Containing SQL Not Permitted"],
  [n |-> "ExternalRoutineModifyingSQLDataNotPermitted", c |-> "38002", t |-> "External Routine Modifying SQL Data Not Permitted"],
  [n |-> "ExternalRoutineProhibitedSQLStatementAttempted", c |-> "38003", t |-> "External Routine Prohibited SQL Statement Attempted"],
  [n |-> "ExternalRoutineReadingSQLDataNotPermitted", c |-> "38004", t |-> "External Routine Reading SQL Data Not Permitted"],
  [n |-> "ExternalRoutineInvocationException", c |-> "39000", t |-> "External Routine Invocation Exception"],
  [n |-> "InvalidSQLStateReturned", c |-> "39001", t |-> "Invalid SQL State Returned"],
  [n |-> "NullValueNotAllowed", c |-> "39004", t |-> "Null Value Not Allowed"],
  [n |-> "TriggerProtocolViolated", c |-> "39P01", t |-> "Trigger Protocol Violated"],
  [n |-> "SRFProtocolViolated", c |-> "39P02", t |-> "SRF Protocol Violated"],
  [n |-> "EventTriggerProtocolViolated", c |-> "39P03", t |-> "Event Trigger Protocol Violated"],
  [n |-> "SavepointException", c |-> "3B000", t |-> "Savepoint Exception"],
  [n |-> "InvalidSavepointSpecification", c |-> "3B001", t |-> "Invalid Savepoint Specification"],
  [n |-> "InvalidCatalogName", c |-> "3D000", t |-> "Invalid Catalog Name"],
  [n |-> "InvalidSchemaName", c |-> "3F000", t |-> "Invalid Schema Name"],
  [n |-> "TransactionRollback", c |-> "40000", t |-> "Transaction Rollback"],
  [n |-> "TransactionIntegrityConstraintViolation", c |-> "40002", t |-> "Transaction Integrity Constraint Violation"],
  [n |-> "SerializationFailure", c |-> "40001", t |-> "Serialization Failure"],
  [n |-> "StatementCompletionUnknown", c |-> "40003", t |-> "Statement Completion Unknown"],
  [n |-> "DeadlockDetected", c |-> "40P01", t |-> "Deadlock Detected"],
  [n |-> "SyntaxErrorOrAccessRuleViolation", c |-> "42000", t |-> "Syntax Error Or Access Rule Violation"],
  [n |-> "SyntaxError", c |-> "42601", t |-> "Syntax Error"],
  [n |-> "InsufficientPrivilege", c |-> "42501", t |-> "Insufficient Privilege"],
  [n |-> "CannotCoerce", c |-> "42846", t |-> "Cannot Coerce"],
  [n |-> "GroupingError", c |-> "42803", t |-> "Grouping Error"],
  [n |-> "WindowingError", c |-> "42P20", t |-> "Windowing Error"],
  [n |-> "InvalidRecursion", c |-> "42P19", t |-> "Invalid Recursion"],
  [n |-> "InvalidForeignKey", c |-> "42830", t |-> "Invalid Foreign Key"],
  [n |-> "InvalidName", c |-> "42602", t |-> "Invalid Name"],
  [n |-> "NameTooLong", c |-> "42622", t |-> "Name Too Long"],
  [n |-> "ReservedName", c |-> "42939", t |-> "Reserved Name"],
  [n |-> "DatatypeMismatch", c |-> "42804", t |-> "Datatype Mismatch"],
  [n |-> "IndeterminateDatatype", c |-> "42P18", t |-> "Indeterminate Datatype"],
  [n |-> "CollationMismatch", c |-> "42P21", t |-> "Collation Mismatch"],
  [n |-> "IndeterminateCollation", c |-> "42P22", t |-> "Indeterminate Collation"],
  [n |-> "WrongObjectType", c |-> "42809", t |-> "Wrong Object Type"],
  [n |-> "GeneratedAlways", c |-> "428C9", t |-> "Generated Always"],
  [n |-> "UndefinedColumn", c |-> "42703", t |-> "Undefined Column"],
  [n |-> "UndefinedFunction", c |-> "42883", t |-> "Undefined Function"],
  [n |-> "UndefinedTable", c |-> "42P01", t |-> "Undefined Table"],
  [n |-> "UndefinedParameter", c |-> "42P02", t |-> "Undefined Parameter"],
  [n |-> "UndefinedObject", c |-> "42704", t |-> "Undefined Object"],
  [n |-> "DuplicateColumn", c |-> "42701", t |-> "Duplicate Column"],
  [n |-> "DuplicateCursor", c |-> "42P03", t |-> "Duplicate Cursor"],
  [n |-> "DuplicateDatabase", c |-> "42P04", t |-> "Duplicate Database"],
  [n |-> "DuplicateFunction", c |-> "42723", t |-> "Duplicate Function"],
  [n |-> "DuplicatePreparedStatement", c |-> "42P05", t |-> "Duplicate Prepared Statement"],
  [n |-> "DuplicateSchema", c |-> "42P06", t |-> "Duplicate Schema"],
  [n |-> "DuplicateTable", c |-> "42P07", t |-> "Duplicate Table"],
  [n |-> "DuplicateAlias", c |-> "42712", t |-> "Duplicate Alias"],
  [n |-> "DuplicateObject", c |-> "42710", t |-> "Duplicate Object"],
  [n |-> "AmbiguousColumn", c |-> "42702", t |-> "Ambiguous Column"],
  [n |-> "AmbiguousFunction", c |-> "42725", t |-> "Ambiguous Function"],
  [n |-> "AmbiguousParameter", c |-> "42P08", t |-> "Ambiguous Parameter"],
  [n |-> "AmbiguousAlias", c |-> "42P09", t |-> "Ambiguous Alias"],
  [n |-> "InvalidColumnReference", c |-> "42P10", t |-> "Invalid Column Reference"],
  [n |-> "InvalidColumnDefinition", c |-> "42611", t |-> "Invalid Column Definition"],
  [n |-> "InvalidCursorDefinition", c |-> "42P11", t |-> "Invalid Cursor Definition"],
  [n |-> "InvalidDatabaseDefinition", c |-> "42P12", t |-> "Invalid Database Definition"],
  [n |-> "InvalidFunctionDefinition", c |-> "42P13", t |-> "Invalid Function Definition"],
  [n |-> "InvalidPreparedStatementDefinition", c |-> "42P14", t |-> "Invalid Prepared Statement Definition"],
  [n |-> "InvalidSchemaDefinition", c |-> "42P15", t |-> "Invalid Schema Definition"],
  [n |-> "InvalidTableDefinition", c |-> "42P16", t |-> "Invalid Table Definition"],
  [n |-> "InvalidObjectDefinition", c |-> "42P17", t |-> "Invalid Object Definition"],
  [n |-> "WithCheckOptionViolation", c |-> "44000", t |-> "With Check Option Violation"],
  [n |-> "InsufficientResources", c |-> "53000", t |-> "Insufficient Resources"],
  [n |-> "DiskFull", c |-> "53100", t |-> "Disk Full"],
  [n |-> "OutOfMemory", c |-> "53200", t |-> "Out Of Memory"],
  [n |-> "TooManyConnections", c |-> "53300", t |-> "Too Many Connections"],
  [n |-> "ConfigurationLimitExceeded", c |-> "53400", t |-> "Configuration Limit Exceeded"],
  [n |-> "ProgramLimitExceeded", c |-> "54000", t |-> "Program Limit Exceeded"],
  [n |-> "StatementTooComplex", c |-> "54001", t |-> "Statement Too Complex"],
  [n |-> "TooManyColumns", c |-> "54011", t |-> "Too Many Columns"],
  [n |-> "TooManyArguments", c |-> "54023", t |-> "Too Many Arguments"],
  [n |-> "ObjectNotInPrerequisiteState", c |-> "55000", t |-> "Object Not In Prerequisite State"],
  [n |-> "ObjectInUse", c |-> "55006", t |-> "Object In Use"],
  [n |-> "CantChangeRuntimeParam", c |-> "55P02", t |-> "Can't Change Runtime Param"],
  [n |-> "LockNotAvailable", c |-> "55P03", t |-> "Lock Not Available"],
  [n |-> "UnsafeNewEnumValueUsage", c |-> "55P04", t |-> "Unsafe New Enum Value Usage"],
  [n |-> "OperatorIntervention", c |-> "57000", t |-> "Operator Intervention"],
  [n |-> "QueryCanceled", c |-> "57014", t |-> "Query Canceled"],
  [n |-> "AdminShutdown", c |-> "57P01", t |-> "Admin Shutdown"],
  [n |-> "CrashShutdown", c |-> "57P02", t |-> "Crash Shutdown"],
  [n |-> "CannotConnectNow", c |-> "57P03", t |-> "Cannot Connect Now"],
  [n |-> "DatabaseDropped", c |-> "57P04", t |-> "Database Dropped"],
  [n |-> "IdleSessionTimeout", c |-> "57P05", t |-> "Idle Session Timeout"],
  [n |-> "SystemError", c |-> "58000", t |-> "System Error"],
  [n |-> "IOError", c |-> "58030", t |-> "IO Error"],
  [n |-> "UndefinedFile", c |-> "58P01", t |-> "Undefined File"],
  [n |-> "DuplicateFile", c |-> "58P02", t |-> "Duplicate File"],
  [n |-> "ConfigFileError", c |-> "F0000", t |-> "Config File Error"],
  [n |-> "LockFileExists", c |-> "F0001", t |-> "Lock File Exists"],
  [n |-> "FDWError", c |-> "HV000", t |-> "FDW Error"],
  [n |-> "FDWColumnNameNotFound", c |-> "HV005", t |-> "FDW Column Name Not Found"],
  [n |-> "FDWDynamicParameterValueNeeded", c |-> "HV002", t |-> "FDW Dynamic Parameter Value Needed"],
  [n |-> "FDWFunctionSequenceError", c |-> "HV010", t |-> "FDW Function Sequence Error"],
  [n |-> "FDWInconsistentDescriptorInformation", c |-> "HV021", t |-> "FDW Inconsistent Descriptor Information"],
  [n |-> "FDWInvalidAttributeValue", c |-> "HV024", t |-> "FDW Invalid Attribute Value"],
  [n |-> "FDWInvalidColumnName", c |-> "HV007", t |-> "FDW Invalid Column Name"],
  [n |-> "FDWInvalidColumnNumber", c |-> "HV008", t |-> "FDW Invalid Column Number"],
  [n |-> "FDWInvalidDataType", c |-> "HV004", t |-> "FDW Invalid Data Type"],
  [n |-> "FDWInvalidDataTypeDescriptors", c |-> "HV006", t |-> "FDW Invalid Data Type Descriptors"],
  [n |-> "FDWInvalidDescriptorFieldIdentifier", c |-> "HV091", t |-> "FDW Invalid Descriptor Field Identifier"],
  [n |-> "FDWInvalidHandle", c |-> "HV00B", t |-> "FDW Invalid Handle"],
  [n |-> "FDWInvalidOptionIndex", c |-> "HV00C", t |-> "FDW Invalid Option Index"],
  [n |-> "FDWInvalidOptionName", c |-> "HV00D", t |-> "FDW Invalid Option Name"],
  [n |-> "FDWInvalidStringLength", c |-> "HV090", t |-> "FDW Invalid String Length"],
  [n |-> "FDWInvalidStringFormat", c |-> "HV00A", t |-> "FDW Invalid String Format"],
  [n |-> "FDWInvalidUseOfNullPointer", c |-> "HV009", t |-> "FDW Invalid Use Of Null Pointer"],
  [n |-> "FDWTooManyHandles", c |-> "HV014", t |-> "FDW Too Many Handles"],
  [n |-> "FDWOutOfMemory", c |-> "HV001", t |-> "FDW Out Of Memory"],
  [n |-> "FDWNoSchemas", c |-> "HV00P", t |-> "FDW No Schemas"],
  [n |-> "FDWOptionNameNotFound", c |-> "HV00J", t |-> "FDW Option Name Not Found"],
  [n |-> "FDWReplyHandle", c |-> "HV00K", t |-> "FDW Reply Handle"],
  [n |-> "FDWSchemaNotFound", c |-> "HV00Q", t |-> "FDW Schema Not Found"],
  [n |-> "FDWTableNotFound", c |-> "HV00R", t |-> "FDW Table Not Found"],
  [n |-> "FDWUnableToCreateExecution", c |-> "HV00L", t |-> "FDW Unable To Create Execution"],
  [n |-> "FDWUnableToCreateReply", c |-> "HV00M", t |-> "FDW Unable To Create Reply"],
  [n |-> "FDWUnableToEstablishConnection", c |-> "HV00N", t |-> "FDW Unable To Establish Connection"],
  [n |-> "PLPGSQLError", c |-> "P0000", t |-> "PL/PGSQL Error"],
  [n |-> "RaiseException", c |-> "P0001", t |-> "Raise Exception"],
  [n |-> "NoDataFound", c |-> "P0002", t |-> "No Data Found"],
  [n |-> "TooManyRows", c |-> "P0003", t |-> "Too Many Rows"],
  [n |-> "AssertFailure", c |-> "P0004", t |-> "Assert Failure"],
  [n |-> "InternalError", c |-> "XX000", t |-> "Internal Error"],
  [n |-> "DataCorrupted", c |-> "XX001", t |-> "Data Corrupted"],
  [n |-> "IndexCorrupted", c |-> "XX002", t |-> "Index Corrupted"]
>>
Classes == <<
  [n |-> "Class00", c |-> "00", t |-> "Successful Completion"],
  [n |-> "Class01", c |-> "01", t |-> "Warning"],
  [n |-> "Class02", c |-> "02", t |-> "No Data"],
  [n |-> "Class03", c |-> "03", t |-> "SQL Statement Not Yet Complete"],
  [n |-> "Class08", c |-> "08", t |-> "Connection Exception"],
  [n |-> "Class09", c |-> "09", t |-> "Triggered Action Exception"],
  [n |-> "Class0A", c |-> "0A", t |-> "Feature Not Supported"],
  [n |-> "Class0B", c |-> "0B", t |-> "Invalid Transaction Initiation"],
  [n |-> "Class0F", c |-> "0F", t |-> "Locator Exception"],
  [n |-> "Class0L", c |-> "0L", t |-> "Invalid Grantor"],
  [n |-> "Class0P", c |-> "0P", t |-> "Invalid Role Specification"],
  [n |-> "Class0Z", c |-> "0Z", t |-> "Diagnostics Exception"],
  [n |-> "Class20", c |-> "20", t |-> "Case Not Found"],
  [n |-> "Class21", c |-> "21", t |-> "Cardinality Violation"],
  [n |-> "Class22", c |-> "22", t |-> "Data Exception"],
  [n |-> "Class23", c |-> "23", t |-> "Integrity Constraint Violation"],
  [n |-> "Class24", c |-> "24", t |-> "Invalid Cursor State"],
  [n |-> "Class25", c |-> "25", t |-> "Invalid Transaction State"],
  [n |-> "Class26", c |-> "26", t |-> "Invalid SQL Statement Name"],
  [n |-> "Class27", c |-> "27", t |-> "Triggered Data Change Violation"],
  [n |-> "Class28", c |-> "28", t |-> "Invalid Authorization Specification"],
  [n |-> "Class2B", c |-> "2B", t |-> "Dependent Privilege Descriptors Still Exist"],
  [n |-> "Class2D", c |-> "2D", t |-> "Invalid Transaction Termination"],
  [n |-> "Class2F", c |-> "2F", t |-> "SQL Routine Exception"],
  [n |-> "Class34", c |-> "34", t |-> "Invalid Cursor Name"],
  [n |-> "Class38", c |-> "38", t |-> "External Routine Exception"],
  [n |-> "Class39", c |-> "39", t |-> "External Routine Invocation Exception"],
  [n |-> "Class3B", c |-> "3B", t |-> "Savepoint Exception"],
  [n |-> "Class3D", c |-> "3D", t |-> "Invalid Catalog Name"],
  [n |-> "Class3F", c |-> "3F", t |-> "Invalid Schema Name"],
  [n |-> "Class40", c |-> "40", t |-> "Transaction Rollback"],
  [n |-> "Class42", c |-> "42", t |-> "Syntax Error or Access Rule Violation"],
  [n |-> "Class44", c |-> "44", t |-> "WITH CHECK OPTION Violation"],
  [n |-> "Class53", c |-> "53", t |-> "Insufficient Resources"],
  [n |-> "Class54", c |-> "54", t |-> "Program Limit Exceeded"],
  [n |-> "Class55", c |-> "55", t |-> "Object Not In Prerequisite State"],
  [n |-> "Class57", c |-> "57", t |-> "Operator Intervention"],
  [n |-> "Class58", c |-> "58", t |-> "System Error"],
  [n |-> "ClassF0", c |-> "F0", t |-> "Configuration File Error"],
  [n |-> "ClassHV", c |-> "HV", t |-> "Foreign Data Wrapper Error (SQL/MED)"],
  [n |-> "ClassP0", c |-> "P0", t |-> "PL/pgSQL Error"],
  [n |-> "ClassXX", c |-> "XX", t |-> "Internal Error"]
>>
=============================================================================
