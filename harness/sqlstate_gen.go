package main

import sqlerrors "github.com/cybergarage/go-sqlparser/sql/errors"

var stateCodes = map[string]sqlerrors.Code{
	"SuccessfulCompletion":                            sqlerrors.SuccessfulCompletion,
	"Warning":                                         sqlerrors.Warning,
	"DynamicResultSetsReturned":                       sqlerrors.DynamicResultSetsReturned,
	"ImplicitZeroBitPadding":                          sqlerrors.ImplicitZeroBitPadding,
	"NullValueEliminatedInSetFunction":                sqlerrors.NullValueEliminatedInSetFunction,
	"PrivilegeNotGranted":                             sqlerrors.PrivilegeNotGranted,
	"PrivilegeNotRevoked":                             sqlerrors.PrivilegeNotRevoked,
	"StringDataRightTruncationWarning":                sqlerrors.StringDataRightTruncationWarning,
	"DeprecatedFeature":                               sqlerrors.DeprecatedFeature,
	"NoData":                                          sqlerrors.NoData,
	"NoAdditionalDynamicResultSetsReturned":           sqlerrors.NoAdditionalDynamicResultSetsReturned,
	"SQLStatementNotYetComplete":                      sqlerrors.SQLStatementNotYetComplete,
	"ConnectionException":                             sqlerrors.ConnectionException,
	"ConnectionDoesNotExist":                          sqlerrors.ConnectionDoesNotExist,
	"ConnectionFailure":                               sqlerrors.ConnectionFailure,
	"SQLClientUnableToEstablishSQLConnection":         sqlerrors.SQLClientUnableToEstablishSQLConnection,
	"SQLServerRejectedEstablishmentOfSQLConnection":   sqlerrors.SQLServerRejectedEstablishmentOfSQLConnection,
	"TransactionResolutionUnknown":                    sqlerrors.TransactionResolutionUnknown,
	"ProtocolViolation":                               sqlerrors.ProtocolViolation,
	"TriggeredActionException":                        sqlerrors.TriggeredActionException,
	"FeatureNotSupported":                             sqlerrors.FeatureNotSupported,
	"InvalidTransactionInitiation":                    sqlerrors.InvalidTransactionInitiation,
	"LocatorException":                                sqlerrors.LocatorException,
	"InvalidLocatorSpecification":                     sqlerrors.InvalidLocatorSpecification,
	"InvalidGrantor":                                  sqlerrors.InvalidGrantor,
	"InvalidGrantOperation":                           sqlerrors.InvalidGrantOperation,
	"InvalidRoleSpecification":                        sqlerrors.InvalidRoleSpecification,
	"DiagnosticsException":                            sqlerrors.DiagnosticsException,
	"StackedDiagnosticsAccessedWithoutActiveHandler":  sqlerrors.StackedDiagnosticsAccessedWithoutActiveHandler,
	"CaseNotFound":                                    sqlerrors.CaseNotFound,
	"CardinalityViolation":                            sqlerrors.CardinalityViolation,
	"DataException":                                   sqlerrors.DataException,
	"ArraySubscriptError":                             sqlerrors.ArraySubscriptError,
	"CharacterNotInRepertoire":                        sqlerrors.CharacterNotInRepertoire,
	"DatetimeFieldOverflow":                           sqlerrors.DatetimeFieldOverflow,
	"DivisionByZero":                                  sqlerrors.DivisionByZero,
	"ErrorInAssignment":                               sqlerrors.ErrorInAssignment,
	"EscapeCharacterConflict":                         sqlerrors.EscapeCharacterConflict,
	"IndicatorOverflow":                               sqlerrors.IndicatorOverflow,
	"IntervalFieldOverflow":                           sqlerrors.IntervalFieldOverflow,
	"InvalidArgumentForLogarithm":                     sqlerrors.InvalidArgumentForLogarithm,
	"InvalidArgumentForNtileFunction":                 sqlerrors.InvalidArgumentForNtileFunction,
	"InvalidArgumentForNthValueFunction":              sqlerrors.InvalidArgumentForNthValueFunction,
	"InvalidArgumentForPowerFunction":                 sqlerrors.InvalidArgumentForPowerFunction,
	"InvalidArgumentForWidthBucketFunction":           sqlerrors.InvalidArgumentForWidthBucketFunction,
	"InvalidCharacterValueForCast":                    sqlerrors.InvalidCharacterValueForCast,
	"InvalidDatetimeFormat":                           sqlerrors.InvalidDatetimeFormat,
	"InvalidEscapeCharacter":                          sqlerrors.InvalidEscapeCharacter,
	"InvalidEscapeOctet":                              sqlerrors.InvalidEscapeOctet,
	"InvalidEscapeSequence":                           sqlerrors.InvalidEscapeSequence,
	"NonstandardUseOfEscapeCharacter":                 sqlerrors.NonstandardUseOfEscapeCharacter,
	"InvalidIndicatorParameterValue":                  sqlerrors.InvalidIndicatorParameterValue,
	"InvalidParameterValue":                           sqlerrors.InvalidParameterValue,
	"InvalidPrecedingOrFollowingSize":                 sqlerrors.InvalidPrecedingOrFollowingSize,
	"InvalidRegularExpression":                        sqlerrors.InvalidRegularExpression,
	"InvalidRowCountInLimitClause":                    sqlerrors.InvalidRowCountInLimitClause,
	"InvalidRowCountInResultOffsetClause":             sqlerrors.InvalidRowCountInResultOffsetClause,
	"InvalidTablesampleArgument":                      sqlerrors.InvalidTablesampleArgument,
	"InvalidTablesampleRepeat":                        sqlerrors.InvalidTablesampleRepeat,
	"InvalidTimeZoneDisplacementValue":                sqlerrors.InvalidTimeZoneDisplacementValue,
	"InvalidUseOfEscapeCharacter":                     sqlerrors.InvalidUseOfEscapeCharacter,
	"MostSpecificTypeMismatch":                        sqlerrors.MostSpecificTypeMismatch,
	"NullDataValueNotAllowed":                         sqlerrors.NullDataValueNotAllowed,
	"NullDataValueNoIndicatorParameter":               sqlerrors.NullDataValueNoIndicatorParameter,
	"NumericValueOutOfRange":                          sqlerrors.NumericValueOutOfRange,
	"SequenceGeneratorLimitExceeded":                  sqlerrors.SequenceGeneratorLimitExceeded,
	"StringDataLengthMismatch":                        sqlerrors.StringDataLengthMismatch,
	"StringDataRightTruncation":                       sqlerrors.StringDataRightTruncation,
	"SubstringError":                                  sqlerrors.SubstringError,
	"TrimError":                                       sqlerrors.TrimError,
	"UnterminatedCString":                             sqlerrors.UnterminatedCString,
	"ZeroLengthCharacterString":                       sqlerrors.ZeroLengthCharacterString,
	"FloatingPointException":                          sqlerrors.FloatingPointException,
	"InvalidTextRepresentation":                       sqlerrors.InvalidTextRepresentation,
	"InvalidBinaryRepresentation":                     sqlerrors.InvalidBinaryRepresentation,
	"BadCopyFileFormat":                               sqlerrors.BadCopyFileFormat,
	"UntranslatableCharacter":                         sqlerrors.UntranslatableCharacter,
	"NotAnXMLDocument":                                sqlerrors.NotAnXMLDocument,
	"InvalidXMLDocument":                              sqlerrors.InvalidXMLDocument,
	"InvalidXMLContent":                               sqlerrors.InvalidXMLContent,
	"InvalidXMLComment":                               sqlerrors.InvalidXMLComment,
	"InvalidXMLProcessingInstruction":                 sqlerrors.InvalidXMLProcessingInstruction,
	"DuplicateJSONObjectKeyValue":                     sqlerrors.DuplicateJSONObjectKeyValue,
	"InvalidArgumentForSQLJSONDatetimeFunction":       sqlerrors.InvalidArgumentForSQLJSONDatetimeFunction,
	"InvalidJSONText":                                 sqlerrors.InvalidJSONText,
	"InvalidSQLJSONSubscript":                         sqlerrors.InvalidSQLJSONSubscript,
	"MoreThanOneSQLJSONItem":                          sqlerrors.MoreThanOneSQLJSONItem,
	"NoSQLJSONItem":                                   sqlerrors.NoSQLJSONItem,
	"NonNumericSQLJSONItem":                           sqlerrors.NonNumericSQLJSONItem,
	"NonUniqueKeysInAJSONObject":                      sqlerrors.NonUniqueKeysInAJSONObject,
	"SingletonSQLJSONItemRequired":                    sqlerrors.SingletonSQLJSONItemRequired,
	"SQLJSONArrayNotFound":                            sqlerrors.SQLJSONArrayNotFound,
	"SQLJSONMemberNotFound":                           sqlerrors.SQLJSONMemberNotFound,
	"SQLJSONNumberNotFound":                           sqlerrors.SQLJSONNumberNotFound,
	"SQLJSONObjectNotFound":                           sqlerrors.SQLJSONObjectNotFound,
	"TooManyJSONArrayElements":                        sqlerrors.TooManyJSONArrayElements,
	"TooManyJSONObjectMembers":                        sqlerrors.TooManyJSONObjectMembers,
	"SQLJSONScalarRequired":                           sqlerrors.SQLJSONScalarRequired,
	"SQLJSONItemCannotBeCastToTargetType":             sqlerrors.SQLJSONItemCannotBeCastToTargetType,
	"IntegrityConstraintViolation":                    sqlerrors.IntegrityConstraintViolation,
	"RestrictViolation":                               sqlerrors.RestrictViolation,
	"NotNullViolation":                                sqlerrors.NotNullViolation,
	"ForeignKeyViolation":                             sqlerrors.ForeignKeyViolation,
	"UniqueViolation":                                 sqlerrors.UniqueViolation,
	"CheckViolation":                                  sqlerrors.CheckViolation,
	"ExclusionViolation":                              sqlerrors.ExclusionViolation,
	"InvalidCursorState":                              sqlerrors.InvalidCursorState,
	"InvalidTransactionState":                         sqlerrors.InvalidTransactionState,
	"ActiveSQLTransaction":                            sqlerrors.ActiveSQLTransaction,
	"BranchTransactionAlreadyActive":                  sqlerrors.BranchTransactionAlreadyActive,
	"HeldCursorRequiresSameIsolationLevel":            sqlerrors.HeldCursorRequiresSameIsolationLevel,
	"InappropriateAccessModeForBranchTransaction":     sqlerrors.InappropriateAccessModeForBranchTransaction,
	"InappropriateIsolationLevelForBranchTransaction": sqlerrors.InappropriateIsolationLevelForBranchTransaction,
	"NoActiveSQLTransactionForBranchTransaction":      sqlerrors.NoActiveSQLTransactionForBranchTransaction,
	"ReadOnlySQLTransaction":                          sqlerrors.ReadOnlySQLTransaction,
	"SchemaAndDataStatementMixingNotSupported":        sqlerrors.SchemaAndDataStatementMixingNotSupported,
	"NoActiveSQLTransaction":                          sqlerrors.NoActiveSQLTransaction,
	"InFailedSQLTransaction":                          sqlerrors.InFailedSQLTransaction,
	"IdleInTransactionSessionTimeout":                 sqlerrors.IdleInTransactionSessionTimeout,
	"TransactionTimeout":                              sqlerrors.TransactionTimeout,
	"InvalidSQLStatementName":                         sqlerrors.InvalidSQLStatementName,
	"TriggeredDataChangeViolation":                    sqlerrors.TriggeredDataChangeViolation,
	"InvalidAuthorizationSpecification":               sqlerrors.InvalidAuthorizationSpecification,
	"InvalidPassword":                                 sqlerrors.InvalidPassword,
	"DependentPrivilegeDescriptorsStillExist":         sqlerrors.DependentPrivilegeDescriptorsStillExist,
	"DependentObjectsStillExist":                      sqlerrors.DependentObjectsStillExist,
	"InvalidTransactionTermination":                   sqlerrors.InvalidTransactionTermination,
	"SQLRoutineException":                             sqlerrors.SQLRoutineException,
	"FunctionExecutedNoReturnStatement":               sqlerrors.FunctionExecutedNoReturnStatement,
	"SQLRoutineModifyingSQLDataNotPermitted":          sqlerrors.SQLRoutineModifyingSQLDataNotPermitted,
	"SQLRoutineProhibitedSQLStatementAttempted":       sqlerrors.SQLRoutineProhibitedSQLStatementAttempted,
	"SQLRoutineReadingSQLDataNotPermitted":            sqlerrors.SQLRoutineReadingSQLDataNotPermitted,
	"InvalidCursorName":                               sqlerrors.InvalidCursorName,
	"ExternalRoutineException":                        sqlerrors.ExternalRoutineException,
	"ContainingSQLNotPermitted":                       sqlerrors.ContainingSQLNotPermitted,
	"ExternalRoutineModifyingSQLDataNotPermitted":     sqlerrors.ExternalRoutineModifyingSQLDataNotPermitted,
	"ExternalRoutineProhibitedSQLStatementAttempted":  sqlerrors.ExternalRoutineProhibitedSQLStatementAttempted,
	"ExternalRoutineReadingSQLDataNotPermitted":       sqlerrors.ExternalRoutineReadingSQLDataNotPermitted,
	"ExternalRoutineInvocationException":              sqlerrors.ExternalRoutineInvocationException,
	"InvalidSQLStateReturned":                         sqlerrors.InvalidSQLStateReturned,
	"NullValueNotAllowed":                             sqlerrors.NullValueNotAllowed,
	"TriggerProtocolViolated":                         sqlerrors.TriggerProtocolViolated,
	"SRFProtocolViolated":                             sqlerrors.SRFProtocolViolated,
	"EventTriggerProtocolViolated":                    sqlerrors.EventTriggerProtocolViolated,
	"SavepointException":                              sqlerrors.SavepointException,
	"InvalidSavepointSpecification":                   sqlerrors.InvalidSavepointSpecification,
	"InvalidCatalogName":                              sqlerrors.InvalidCatalogName,
	"InvalidSchemaName":                               sqlerrors.InvalidSchemaName,
	"TransactionRollback":                             sqlerrors.TransactionRollback,
	"TransactionIntegrityConstraintViolation":         sqlerrors.TransactionIntegrityConstraintViolation,
	"SerializationFailure":                            sqlerrors.SerializationFailure,
	"StatementCompletionUnknown":                      sqlerrors.StatementCompletionUnknown,
	"DeadlockDetected":                                sqlerrors.DeadlockDetected,
	"SyntaxErrorOrAccessRuleViolation":                sqlerrors.SyntaxErrorOrAccessRuleViolation,
	"SyntaxError":                                     sqlerrors.SyntaxError,
	"InsufficientPrivilege":                           sqlerrors.InsufficientPrivilege,
	"CannotCoerce":                                    sqlerrors.CannotCoerce,
	"GroupingError":                                   sqlerrors.GroupingError,
	"WindowingError":                                  sqlerrors.WindowingError,
	"InvalidRecursion":                                sqlerrors.InvalidRecursion,
	"InvalidForeignKey":                               sqlerrors.InvalidForeignKey,
	"InvalidName":                                     sqlerrors.InvalidName,
	"NameTooLong":                                     sqlerrors.NameTooLong,
	"ReservedName":                                    sqlerrors.ReservedName,
	"DatatypeMismatch":                                sqlerrors.DatatypeMismatch,
	"IndeterminateDatatype":                           sqlerrors.IndeterminateDatatype,
	"CollationMismatch":                               sqlerrors.CollationMismatch,
	"IndeterminateCollation":                          sqlerrors.IndeterminateCollation,
	"WrongObjectType":                                 sqlerrors.WrongObjectType,
	"GeneratedAlways":                                 sqlerrors.GeneratedAlways,
	"UndefinedColumn":                                 sqlerrors.UndefinedColumn,
	"UndefinedFunction":                               sqlerrors.UndefinedFunction,
	"UndefinedTable":                                  sqlerrors.UndefinedTable,
	"UndefinedParameter":                              sqlerrors.UndefinedParameter,
	"UndefinedObject":                                 sqlerrors.UndefinedObject,
	"DuplicateColumn":                                 sqlerrors.DuplicateColumn,
	"DuplicateCursor":                                 sqlerrors.DuplicateCursor,
	"DuplicateDatabase":                               sqlerrors.DuplicateDatabase,
	"DuplicateFunction":                               sqlerrors.DuplicateFunction,
	"DuplicatePreparedStatement":                      sqlerrors.DuplicatePreparedStatement,
	"DuplicateSchema":                                 sqlerrors.DuplicateSchema,
	"DuplicateTable":                                  sqlerrors.DuplicateTable,
	"DuplicateAlias":                                  sqlerrors.DuplicateAlias,
	"DuplicateObject":                                 sqlerrors.DuplicateObject,
	"AmbiguousColumn":                                 sqlerrors.AmbiguousColumn,
	"AmbiguousFunction":                               sqlerrors.AmbiguousFunction,
	"AmbiguousParameter":                              sqlerrors.AmbiguousParameter,
	"AmbiguousAlias":                                  sqlerrors.AmbiguousAlias,
	"InvalidColumnReference":                          sqlerrors.InvalidColumnReference,
	"InvalidColumnDefinition":                         sqlerrors.InvalidColumnDefinition,
	"InvalidCursorDefinition":                         sqlerrors.InvalidCursorDefinition,
	"InvalidDatabaseDefinition":                       sqlerrors.InvalidDatabaseDefinition,
	"InvalidFunctionDefinition":                       sqlerrors.InvalidFunctionDefinition,
	"InvalidPreparedStatementDefinition":              sqlerrors.InvalidPreparedStatementDefinition,
	"InvalidSchemaDefinition":                         sqlerrors.InvalidSchemaDefinition,
	"InvalidTableDefinition":                          sqlerrors.InvalidTableDefinition,
	"InvalidObjectDefinition":                         sqlerrors.InvalidObjectDefinition,
	"WithCheckOptionViolation":                        sqlerrors.WithCheckOptionViolation,
	"InsufficientResources":                           sqlerrors.InsufficientResources,
	"DiskFull":                                        sqlerrors.DiskFull,
	"OutOfMemory":                                     sqlerrors.OutOfMemory,
	"TooManyConnections":                              sqlerrors.TooManyConnections,
	"ConfigurationLimitExceeded":                      sqlerrors.ConfigurationLimitExceeded,
	"ProgramLimitExceeded":                            sqlerrors.ProgramLimitExceeded,
	"StatementTooComplex":                             sqlerrors.StatementTooComplex,
	"TooManyColumns":                                  sqlerrors.TooManyColumns,
	"TooManyArguments":                                sqlerrors.TooManyArguments,
	"ObjectNotInPrerequisiteState":                    sqlerrors.ObjectNotInPrerequisiteState,
	"ObjectInUse":                                     sqlerrors.ObjectInUse,
	"CantChangeRuntimeParam":                          sqlerrors.CantChangeRuntimeParam,
	"LockNotAvailable":                                sqlerrors.LockNotAvailable,
	"UnsafeNewEnumValueUsage":                         sqlerrors.UnsafeNewEnumValueUsage,
	"OperatorIntervention":                            sqlerrors.OperatorIntervention,
	"QueryCanceled":                                   sqlerrors.QueryCanceled,
	"AdminShutdown":                                   sqlerrors.AdminShutdown,
	"CrashShutdown":                                   sqlerrors.CrashShutdown,
	"CannotConnectNow":                                sqlerrors.CannotConnectNow,
	"DatabaseDropped":                                 sqlerrors.DatabaseDropped,
	"IdleSessionTimeout":                              sqlerrors.IdleSessionTimeout,
	"SystemError":                                     sqlerrors.SystemError,
	"IOError":                                         sqlerrors.IOError,
	"UndefinedFile":                                   sqlerrors.UndefinedFile,
	"DuplicateFile":                                   sqlerrors.DuplicateFile,
	"ConfigFileError":                                 sqlerrors.ConfigFileError,
	"LockFileExists":                                  sqlerrors.LockFileExists,
	"FDWError":                                        sqlerrors.FDWError,
	"FDWColumnNameNotFound":                           sqlerrors.FDWColumnNameNotFound,
	"FDWDynamicParameterValueNeeded":                  sqlerrors.FDWDynamicParameterValueNeeded,
	"FDWFunctionSequenceError":                        sqlerrors.FDWFunctionSequenceError,
	"FDWInconsistentDescriptorInformation":            sqlerrors.FDWInconsistentDescriptorInformation,
	"FDWInvalidAttributeValue":                        sqlerrors.FDWInvalidAttributeValue,
	"FDWInvalidColumnName":                            sqlerrors.FDWInvalidColumnName,
	"FDWInvalidColumnNumber":                          sqlerrors.FDWInvalidColumnNumber,
	"FDWInvalidDataType":                              sqlerrors.FDWInvalidDataType,
	"FDWInvalidDataTypeDescriptors":                   sqlerrors.FDWInvalidDataTypeDescriptors,
	"FDWInvalidDescriptorFieldIdentifier":             sqlerrors.FDWInvalidDescriptorFieldIdentifier,
	"FDWInvalidHandle":                                sqlerrors.FDWInvalidHandle,
	"FDWInvalidOptionIndex":                           sqlerrors.FDWInvalidOptionIndex,
	"FDWInvalidOptionName":                            sqlerrors.FDWInvalidOptionName,
	"FDWInvalidStringLength":                          sqlerrors.FDWInvalidStringLength,
	"FDWInvalidStringFormat":                          sqlerrors.FDWInvalidStringFormat,
	"FDWInvalidUseOfNullPointer":                      sqlerrors.FDWInvalidUseOfNullPointer,
	"FDWTooManyHandles":                               sqlerrors.FDWTooManyHandles,
	"FDWOutOfMemory":                                  sqlerrors.FDWOutOfMemory,
	"FDWNoSchemas":                                    sqlerrors.FDWNoSchemas,
	"FDWOptionNameNotFound":                           sqlerrors.FDWOptionNameNotFound,
	"FDWReplyHandle":                                  sqlerrors.FDWReplyHandle,
	"FDWSchemaNotFound":                               sqlerrors.FDWSchemaNotFound,
	"FDWTableNotFound":                                sqlerrors.FDWTableNotFound,
	"FDWUnableToCreateExecution":                      sqlerrors.FDWUnableToCreateExecution,
	"FDWUnableToCreateReply":                          sqlerrors.FDWUnableToCreateReply,
	"FDWUnableToEstablishConnection":                  sqlerrors.FDWUnableToEstablishConnection,
	"PLPGSQLError":                                    sqlerrors.PLPGSQLError,
	"RaiseException":                                  sqlerrors.RaiseException,
	"NoDataFound":                                     sqlerrors.NoDataFound,
	"TooManyRows":                                     sqlerrors.TooManyRows,
	"AssertFailure":                                   sqlerrors.AssertFailure,
	"InternalError":                                   sqlerrors.InternalError,
	"DataCorrupted":                                   sqlerrors.DataCorrupted,
	"IndexCorrupted":                                  sqlerrors.IndexCorrupted,
}

var stateClasses = map[string]sqlerrors.Class{
	"Class00": sqlerrors.Class00,
	"Class01": sqlerrors.Class01,
	"Class02": sqlerrors.Class02,
	"Class03": sqlerrors.Class03,
	"Class08": sqlerrors.Class08,
	"Class09": sqlerrors.Class09,
	"Class0A": sqlerrors.Class0A,
	"Class0B": sqlerrors.Class0B,
	"Class0F": sqlerrors.Class0F,
	"Class0L": sqlerrors.Class0L,
	"Class0P": sqlerrors.Class0P,
	"Class0Z": sqlerrors.Class0Z,
	"Class20": sqlerrors.Class20,
	"Class21": sqlerrors.Class21,
	"Class22": sqlerrors.Class22,
	"Class23": sqlerrors.Class23,
	"Class24": sqlerrors.Class24,
	"Class25": sqlerrors.Class25,
	"Class26": sqlerrors.Class26,
	"Class27": sqlerrors.Class27,
	"Class28": sqlerrors.Class28,
	"Class2B": sqlerrors.Class2B,
	"Class2D": sqlerrors.Class2D,
	"Class2F": sqlerrors.Class2F,
	"Class34": sqlerrors.Class34,
	"Class38": sqlerrors.Class38,
	"Class39": sqlerrors.Class39,
	"Class3B": sqlerrors.Class3B,
	"Class3D": sqlerrors.Class3D,
	"Class3F": sqlerrors.Class3F,
	"Class40": sqlerrors.Class40,
	"Class42": sqlerrors.Class42,
	"Class44": sqlerrors.Class44,
	"Class53": sqlerrors.Class53,
	"Class54": sqlerrors.Class54,
	"Class55": sqlerrors.Class55,
	"Class57": sqlerrors.Class57,
	"Class58": sqlerrors.Class58,
	"ClassF0": sqlerrors.ClassF0,
	"ClassHV": sqlerrors.ClassHV,
	"ClassP0": sqlerrors.ClassP0,
	"ClassXX": sqlerrors.ClassXX,
}
