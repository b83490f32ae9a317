# generated by tools/gen_ns0.py from Opc.Ua.NodeSet2.xml
# id: (nodeclass, name, isAbstract)
NODES = {
 1: (64, 'Boolean', False),
 2: (64, 'SByte', False),
 3: (64, 'Byte', False),
 4: (64, 'Int16', False),
 5: (64, 'UInt16', False),
 6: (64, 'Int32', False),
 7: (64, 'UInt32', False),
 8: (64, 'Int64', False),
 9: (64, 'UInt64', False),
 10: (64, 'Float', False),
 11: (64, 'Double', False),
 12: (64, 'String', False),
 13: (64, 'DateTime', False),
 14: (64, 'Guid', False),
 15: (64, 'ByteString', False),
 16: (64, 'XmlElement', False),
 17: (64, 'NodeId', False),
 18: (64, 'ExpandedNodeId', False),
 19: (64, 'StatusCode', False),
 20: (64, 'QualifiedName', False),
 21: (64, 'LocalizedText', False),
 22: (64, 'Structure', True),
 23: (64, 'DataValue', False),
 24: (64, 'BaseDataType', True),
 25: (64, 'DiagnosticInfo', False),
 26: (64, 'Number', True),
 27: (64, 'Integer', True),
 28: (64, 'UInteger', True),
 29: (64, 'Enumeration', True),
 30: (64, 'Image', True),
 31: (32, 'References', True),
 32: (32, 'NonHierarchicalReferences', True),
 33: (32, 'HierarchicalReferences', True),
 34: (32, 'HasChild', True),
 35: (32, 'Organizes', False),
 36: (32, 'HasEventSource', False),
 37: (32, 'HasModellingRule', False),
 38: (32, 'HasEncoding', False),
 39: (32, 'HasDescription', False),
 40: (32, 'HasTypeDefinition', False),
 41: (32, 'GeneratesEvent', False),
 44: (32, 'Aggregates', True),
 45: (32, 'HasSubtype', False),
 46: (32, 'HasProperty', False),
 47: (32, 'HasComponent', False),
 48: (32, 'HasNotifier', False),
 49: (32, 'HasOrderedComponent', False),
 50: (64, 'Decimal', False),
 51: (32, 'FromState', False),
 52: (32, 'ToState', False),
 53: (32, 'HasCause', False),
 54: (32, 'HasEffect', False),
 56: (32, 'HasHistoricalConfiguration', False),
 58: (8, 'BaseObjectType', False),
 61: (8, 'FolderType', False),
 62: (16, 'BaseVariableType', True),
 63: (16, 'BaseDataVariableType', False),
 68: (16, 'PropertyType', False),
 69: (16, 'DataTypeDescriptionType', False),
 72: (16, 'DataTypeDictionaryType', False),
 75: (8, 'DataTypeSystemType', False),
 76: (8, 'DataTypeEncodingType', False),
 77: (8, 'ModellingRuleType', False),
 78: (1, 'Mandatory', False),
 80: (1, 'Optional', False),
 83: (1, 'ExposesItsArray', False),
 84: (1, 'Root', False),
 85: (1, 'Objects', False),
 86: (1, 'Types', False),
 87: (1, 'Views', False),
 88: (1, 'ObjectTypes', False),
 89: (1, 'VariableTypes', False),
 90: (1, 'DataTypes', False),
 91: (1, 'ReferenceTypes', False),
 92: (1, 'XML Schema', False),
 93: (1, 'OPC Binary', False),
 94: (64, 'PermissionType', False),
 95: (64, 'AccessRestrictionType', False),
 96: (64, 'RolePermissionType', False),
 97: (64, 'DataTypeDefinition', True),
 98: (64, 'StructureType', False),
 99: (64, 'StructureDefinition', False),
 100: (64, 'EnumDefinition', False),
 101: (64, 'StructureField', False),
 102: (64, 'EnumField', False),
 117: (32, 'HasSubStateMachine', False),
 120: (64, 'NamingRuleType', False),
 129: (32, 'HasArgumentDescription', False),
 131: (32, 'HasOptionalInputArgumentDescription', False),
 256: (64, 'IdType', False),
 257: (64, 'NodeClass', False),
 288: (64, 'IntegerId', False),
 289: (64, 'Counter', False),
 290: (64, 'Duration', False),
 291: (64, 'NumericRange', False),
 292: (64, 'Time', False),
 293: (64, 'Date', False),
 294: (64, 'UtcTime', False),
 295: (64, 'LocaleId', False),
 296: (64, 'Argument', False),
 299: (64, 'StatusResult', False),
 302: (64, 'MessageSecurityMode', False),
 303: (64, 'UserTokenType', False),
 304: (64, 'UserTokenPolicy', False),
 307: (64, 'ApplicationType', False),
 308: (64, 'ApplicationDescription', False),
 311: (64, 'ApplicationInstanceCertificate', False),
 312: (64, 'EndpointDescription', False),
 315: (64, 'SecurityTokenRequestType', False),
 316: (64, 'UserIdentityToken', True),
 319: (64, 'AnonymousIdentityToken', False),
 322: (64, 'UserNameIdentityToken', False),
 325: (64, 'X509IdentityToken', False),
 331: (64, 'EndpointConfiguration', False),
 338: (64, 'BuildInfo', False),
 344: (64, 'SignedSoftwareCertificate', False),
 347: (64, 'AttributeWriteMask', False),
 348: (64, 'NodeAttributesMask', False),
 376: (64, 'AddNodesItem', False),
 379: (64, 'AddReferencesItem', False),
 382: (64, 'DeleteNodesItem', False),
 385: (64, 'DeleteReferencesItem', False),
 388: (64, 'SessionAuthenticationToken', False),
 432: (64, 'RegisteredServer', False),
 521: (64, 'ContinuationPoint', False),
 537: (64, 'RelativePathElement', False),
 540: (64, 'RelativePath', False),
 576: (64, 'FilterOperator', False),
 583: (64, 'ContentFilterElement', False),
 586: (64, 'ContentFilter', False),
 589: (64, 'FilterOperand', False),
 592: (64, 'ElementOperand', False),
 595: (64, 'LiteralOperand', False),
 598: (64, 'AttributeOperand', False),
 601: (64, 'SimpleAttributeOperand', False),
 659: (64, 'HistoryEvent', False),
 719: (64, 'MonitoringFilter', False),
 725: (64, 'EventFilter', False),
 851: (64, 'RedundancySupport', False),
 852: (64, 'ServerState', False),
 853: (64, 'RedundantServerDataType', False),
 856: (64, 'SamplingIntervalDiagnosticsDataType', False),
 859: (64, 'ServerDiagnosticsSummaryDataType', False),
 862: (64, 'ServerStatusDataType', False),
 865: (64, 'SessionDiagnosticsDataType', False),
 868: (64, 'SessionSecurityDiagnosticsDataType', False),
 871: (64, 'ServiceCounterDataType', False),
 874: (64, 'SubscriptionDiagnosticsDataType', False),
 877: (64, 'ModelChangeStructureDataType', False),
 884: (64, 'Range', False),
 887: (64, 'EUInformation', False),
 890: (64, 'ExceptionDeviationFormat', False),
 891: (64, 'Annotation', False),
 894: (64, 'ProgramDiagnosticDataType', False),
 897: (64, 'SemanticChangeStructureDataType', False),
 920: (64, 'HistoryEventFieldList', False),
 938: (64, 'IssuedIdentityToken', False),
 948: (64, 'AggregateConfiguration', False),
 2000: (64, 'ImageBMP', False),
 2001: (64, 'ImageGIF', False),
 2002: (64, 'ImageJPG', False),
 2003: (64, 'ImagePNG', False),
 2004: (8, 'ServerType', False),
 2013: (8, 'ServerCapabilitiesType', False),
 2020: (8, 'ServerDiagnosticsType', False),
 2026: (8, 'SessionsDiagnosticsSummaryType', False),
 2029: (8, 'SessionDiagnosticsObjectType', False),
 2033: (8, 'VendorServerInfoType', False),
 2034: (8, 'ServerRedundancyType', False),
 2036: (8, 'TransparentRedundancyType', False),
 2039: (8, 'NonTransparentRedundancyType', False),
 2041: (8, 'BaseEventType', True),
 2052: (8, 'AuditEventType', True),
 2058: (8, 'AuditSecurityEventType', True),
 2059: (8, 'AuditChannelEventType', True),
 2060: (8, 'AuditOpenSecureChannelEventType', True),
 2069: (8, 'AuditSessionEventType', True),
 2071: (8, 'AuditCreateSessionEventType', True),
 2075: (8, 'AuditActivateSessionEventType', True),
 2078: (8, 'AuditCancelEventType', True),
 2080: (8, 'AuditCertificateEventType', True),
 2082: (8, 'AuditCertificateDataMismatchEventType', True),
 2085: (8, 'AuditCertificateExpiredEventType', True),
 2086: (8, 'AuditCertificateInvalidEventType', True),
 2087: (8, 'AuditCertificateUntrustedEventType', True),
 2088: (8, 'AuditCertificateRevokedEventType', True),
 2089: (8, 'AuditCertificateMismatchEventType', True),
 2090: (8, 'AuditNodeManagementEventType', True),
 2091: (8, 'AuditAddNodesEventType', True),
 2093: (8, 'AuditDeleteNodesEventType', True),
 2095: (8, 'AuditAddReferencesEventType', True),
 2097: (8, 'AuditDeleteReferencesEventType', True),
 2099: (8, 'AuditUpdateEventType', True),
 2100: (8, 'AuditWriteUpdateEventType', True),
 2104: (8, 'AuditHistoryUpdateEventType', True),
 2127: (8, 'AuditUpdateMethodEventType', True),
 2130: (8, 'SystemEventType', True),
 2131: (8, 'DeviceFailureEventType', True),
 2132: (8, 'BaseModelChangeEventType', True),
 2133: (8, 'GeneralModelChangeEventType', True),
 2137: (16, 'ServerVendorCapabilityType', True),
 2138: (16, 'ServerStatusType', False),
 2150: (16, 'ServerDiagnosticsSummaryType', False),
 2164: (16, 'SamplingIntervalDiagnosticsArrayType', False),
 2165: (16, 'SamplingIntervalDiagnosticsType', False),
 2171: (16, 'SubscriptionDiagnosticsArrayType', False),
 2172: (16, 'SubscriptionDiagnosticsType', False),
 2196: (16, 'SessionDiagnosticsArrayType', False),
 2197: (16, 'SessionDiagnosticsVariableType', False),
 2243: (16, 'SessionSecurityDiagnosticsArrayType', False),
 2244: (16, 'SessionSecurityDiagnosticsType', False),
 2253: (1, 'Server', False),
 2254: (2, 'ServerArray', False),
 2255: (2, 'NamespaceArray', False),
 2256: (2, 'ServerStatus', False),
 2268: (1, 'ServerCapabilities', False),
 2274: (1, 'ServerDiagnostics', False),
 2299: (8, 'StateMachineType', False),
 2307: (8, 'StateType', False),
 2309: (8, 'InitialStateType', False),
 2310: (8, 'TransitionType', False),
 2311: (8, 'TransitionEventType', True),
 2315: (8, 'AuditUpdateStateEventType', True),
 2318: (8, 'HistoricalDataConfigurationType', False),
 2330: (8, 'HistoryServerCapabilitiesType', False),
 2340: (8, 'AggregateFunctionType', False),
 2365: (16, 'DataItemType', False),
 2368: (16, 'AnalogItemType', False),
 2372: (16, 'DiscreteItemType', True),
 2373: (16, 'TwoStateDiscreteType', False),
 2376: (16, 'MultiStateDiscreteType', False),
 2378: (8, 'ProgramTransitionEventType', True),
 2380: (16, 'ProgramDiagnosticType', False),
 2391: (8, 'ProgramStateMachineType', False),
 2738: (8, 'SemanticChangeEventType', True),
 2748: (8, 'AuditUrlMismatchEventType', True),
 2755: (16, 'StateVariableType', False),
 2760: (16, 'FiniteStateVariableType', False),
 2762: (16, 'TransitionVariableType', False),
 2767: (16, 'FiniteTransitionVariableType', False),
 2771: (8, 'FiniteStateMachineType', True),
 2782: (8, 'ConditionType', True),
 2787: (8, 'RefreshStartEventType', True),
 2788: (8, 'RefreshEndEventType', True),
 2789: (8, 'RefreshRequiredEventType', True),
 2790: (8, 'AuditConditionEventType', False),
 2803: (8, 'AuditConditionEnableEventType', False),
 2829: (8, 'AuditConditionCommentEventType', False),
 2830: (8, 'DialogConditionType', False),
 2881: (8, 'AcknowledgeableConditionType', False),
 2915: (8, 'AlarmConditionType', False),
 2929: (8, 'ShelvedStateMachineType', False),
 2955: (8, 'LimitAlarmType', False),
 2999: (8, 'AuditHistoryEventUpdateEventType', True),
 3006: (8, 'AuditHistoryValueUpdateEventType', True),
 3012: (8, 'AuditHistoryDeleteEventType', True),
 3014: (8, 'AuditHistoryRawModifyDeleteEventType', True),
 3019: (8, 'AuditHistoryAtTimeDeleteEventType', True),
 3022: (8, 'AuditHistoryEventDeleteEventType', True),
 3035: (8, 'EventQueueOverflowEventType', True),
 3048: (1, 'EventTypes', False),
 3051: (16, 'BuildInfoType', False),
 3065: (32, 'AlwaysGeneratesEvent', False),
 3806: (8, 'ProgramTransitionAuditEventType', False),
 7594: (64, 'EnumValueType', False),
 8912: (64, 'TimeZoneDataType', False),
 8927: (8, 'AuditConditionRespondEventType', False),
 8944: (8, 'AuditConditionAcknowledgeEventType', False),
 8961: (8, 'AuditConditionConfirmEventType', False),
 8995: (16, 'TwoStateVariableType', False),
 9002: (16, 'ConditionVariableType', False),
 9004: (32, 'HasTrueSubState', False),
 9005: (32, 'HasFalseSubState', False),
 9006: (32, 'HasCondition', False),
 9318: (8, 'ExclusiveLimitStateMachineType', False),
 9341: (8, 'ExclusiveLimitAlarmType', False),
 9482: (8, 'ExclusiveLevelAlarmType', False),
 9623: (8, 'ExclusiveRateOfChangeAlarmType', False),
 9764: (8, 'ExclusiveDeviationAlarmType', False),
 9906: (8, 'NonExclusiveLimitAlarmType', False),
 10060: (8, 'NonExclusiveLevelAlarmType', False),
 10214: (8, 'NonExclusiveRateOfChangeAlarmType', False),
 10368: (8, 'NonExclusiveDeviationAlarmType', False),
 10523: (8, 'DiscreteAlarmType', False),
 10637: (8, 'OffNormalAlarmType', False),
 10751: (8, 'TripAlarmType', False),
 11093: (8, 'AuditConditionShelvingEventType', False),
 11163: (8, 'BaseConditionClassType', True),
 11164: (8, 'ProcessConditionClassType', True),
 11165: (8, 'MaintenanceConditionClassType', True),
 11166: (8, 'SystemConditionClassType', True),
 11187: (8, 'AggregateConfigurationType', False),
 11192: (1, 'HistoryServerCapabilities', False),
 11234: (64, 'HistoryUpdateType', False),
 11238: (16, 'MultiStateValueDiscreteType', False),
 11293: (64, 'PerformUpdateType', False),
 11436: (8, 'ProgressEventType', True),
 11446: (8, 'SystemStatusChangeEventType', True),
 11487: (16, 'OptionSetType', False),
 11508: (1, 'OptionalPlaceholder', False),
 11510: (1, 'MandatoryPlaceholder', False),
 11564: (8, 'OperationLimitsType', False),
 11575: (8, 'FileType', False),
 11595: (8, 'AddressSpaceFileType', False),
 11616: (8, 'NamespaceMetadataType', False),
 11645: (8, 'NamespacesType', False),
 11737: (64, 'BitFieldMaskDataType', False),
 11753: (8, 'SystemOffNormalAlarmType', True),
 11856: (8, 'AuditProgramTransitionEventType', True),
 11939: (64, 'OpenFileMode', False),
 11943: (64, 'EndpointUrlListDataType', False),
 11944: (64, 'NetworkGroupDataType', False),
 11945: (8, 'NonTransparentNetworkRedundancyType', False),
 12021: (16, 'ArrayItemType', True),
 12029: (16, 'YArrayItemType', False),
 12038: (16, 'XYArrayItemType', False),
 12047: (16, 'ImageItemType', False),
 12057: (16, 'CubeItemType', False),
 12068: (16, 'NDimensionArrayItemType', False),
 12077: (64, 'AxisScaleEnumeration', False),
 12079: (64, 'AxisInformation', False),
 12080: (64, 'XVType', False),
 12171: (64, 'ComplexNumberType', False),
 12172: (64, 'DoubleComplexNumberType', False),
 12189: (64, 'ServerOnNetwork', False),
 12522: (8, 'TrustListType', False),
 12552: (64, 'TrustListMasks', False),
 12554: (64, 'TrustListDataType', False),
 12555: (8, 'CertificateGroupType', False),
 12556: (8, 'CertificateType', True),
 12557: (8, 'ApplicationCertificateType', True),
 12558: (8, 'HttpsCertificateType', False),
 12559: (8, 'RsaMinApplicationCertificateType', False),
 12560: (8, 'RsaSha256ApplicationCertificateType', False),
 12561: (8, 'TrustListUpdatedAuditEventType', True),
 12581: (8, 'ServerConfigurationType', False),
 12620: (8, 'CertificateUpdatedAuditEventType', True),
 12755: (64, 'OptionSet', False),
 12756: (64, 'Union', True),
 12877: (64, 'NormalizedString', False),
 12878: (64, 'DecimalString', False),
 12879: (64, 'DurationString', False),
 12880: (64, 'TimeString', False),
 12881: (64, 'DateString', False),
 12890: (64, 'DiscoveryConfiguration', False),
 12891: (64, 'MdnsDiscoveryConfiguration', False),
 13225: (8, 'CertificateExpirationAlarmType', False),
 13353: (8, 'FileDirectoryType', False),
 13813: (8, 'CertificateGroupFolderType', False),
 14209: (8, 'PubSubConnectionType', False),
 14232: (8, 'PubSubGroupType', True),
 14273: (64, 'PublishedVariableDataType', False),
 14416: (8, 'PublishSubscribeType', False),
 14476: (32, 'HasPubSubConnection', False),
 14477: (8, 'DataSetFolderType', False),
 14509: (8, 'PublishedDataSetType', False),
 14523: (64, 'DataSetMetaDataType', False),
 14524: (64, 'FieldMetaData', False),
 14525: (64, 'DataTypeDescription', True),
 14533: (64, 'KeyValuePair', False),
 14534: (8, 'PublishedDataItemsType', False),
 14572: (8, 'PublishedEventsType', False),
 14593: (64, 'ConfigurationVersionDataType', False),
 14643: (8, 'PubSubStatusType', False),
 14647: (64, 'PubSubState', False),
 14744: (64, 'FieldTargetDataType', False),
 14936: (32, 'DataSetToWriter', False),
 15005: (64, 'SimpleTypeDescription', False),
 15006: (64, 'UABinaryFileDataType', False),
 15007: (64, 'BrokerConnectionTransportDataType', False),
 15008: (64, 'BrokerTransportQualityOfService', False),
 15013: (8, 'AuditConditionResetEventType', False),
 15031: (64, 'AccessLevelType', False),
 15033: (64, 'EventNotifierType', False),
 15064: (8, 'DatagramConnectionTransportType', False),
 15108: (8, 'SubscribedDataSetType', False),
 15109: (8, 'ChoiceStateType', False),
 15111: (8, 'TargetVariablesType', False),
 15112: (32, 'HasGuard', False),
 15113: (16, 'GuardVariableType', False),
 15127: (8, 'SubscribedDataSetMirrorType', False),
 15128: (16, 'ExpressionGuardVariableType', False),
 15155: (8, 'BrokerConnectionTransportType', False),
 15181: (8, 'UserCredentialCertificateType', False),
 15296: (32, 'HasDataSetWriter', False),
 15297: (32, 'HasDataSetReader', False),
 15298: (8, 'DataSetWriterType', False),
 15305: (8, 'DataSetWriterTransportType', True),
 15306: (8, 'DataSetReaderType', False),
 15317: (16, 'ElseGuardVariableType', False),
 15318: (16, 'BaseAnalogType', False),
 15319: (8, 'DataSetReaderTransportType', True),
 15383: (16, 'ProgramDiagnostic2Type', False),
 15396: (64, 'ProgramDiagnostic2DataType', False),
 15406: (64, 'AccessLevelExType', False),
 15452: (8, 'SecurityGroupFolderType', False),
 15471: (8, 'SecurityGroupType', False),
 15480: (64, 'WriterGroupDataType', False),
 15487: (64, 'StructureDescription', False),
 15488: (64, 'EnumDescription', False),
 15489: (8, 'ExtensionFieldsType', False),
 15502: (64, 'NetworkAddressDataType', True),
 15510: (64, 'NetworkAddressUrlDataType', False),
 15520: (64, 'ReaderGroupDataType', False),
 15528: (64, 'EndpointType', False),
 15530: (64, 'PubSubConfigurationDataType', False),
 15532: (64, 'DatagramWriterGroupTransportDataType', False),
 15534: (64, 'DataTypeSchemaHeader', True),
 15535: (8, 'PubSubStatusEventType', True),
 15548: (8, 'PubSubTransportLimitsExceedEventType', True),
 15563: (8, 'PubSubCommunicationFailureEventType', True),
 15578: (64, 'PublishedDataSetDataType', False),
 15580: (64, 'PublishedDataSetSourceDataType', True),
 15581: (64, 'PublishedDataItemsDataType', False),
 15582: (64, 'PublishedEventsDataType', False),
 15583: (64, 'DataSetFieldContentMask', False),
 15597: (64, 'DataSetWriterDataType', False),
 15598: (64, 'DataSetWriterTransportDataType', True),
 15605: (64, 'DataSetWriterMessageDataType', True),
 15607: (8, 'RoleSetType', False),
 15609: (64, 'PubSubGroupDataType', True),
 15611: (64, 'WriterGroupTransportDataType', True),
 15616: (64, 'WriterGroupMessageDataType', True),
 15617: (64, 'PubSubConnectionDataType', False),
 15618: (64, 'ConnectionTransportDataType', True),
 15620: (8, 'RoleType', False),
 15621: (64, 'ReaderGroupTransportDataType', True),
 15622: (64, 'ReaderGroupMessageDataType', True),
 15623: (64, 'DataSetReaderDataType', False),
 15628: (64, 'DataSetReaderTransportDataType', True),
 15629: (64, 'DataSetReaderMessageDataType', True),
 15630: (64, 'SubscribedDataSetDataType', True),
 15631: (64, 'TargetVariablesDataType', False),
 15632: (64, 'IdentityCriteriaType', False),
 15634: (64, 'IdentityMappingRuleType', False),
 15635: (64, 'SubscribedDataSetMirrorDataType', False),
 15642: (64, 'UadpNetworkMessageContentMask', False),
 15645: (64, 'UadpWriterGroupMessageDataType', False),
 15646: (64, 'UadpDataSetMessageContentMask', False),
 15652: (64, 'UadpDataSetWriterMessageDataType', False),
 15653: (64, 'UadpDataSetReaderMessageDataType', False),
 15654: (64, 'JsonNetworkMessageContentMask', False),
 15657: (64, 'JsonWriterGroupMessageDataType', False),
 15658: (64, 'JsonDataSetMessageContentMask', False),
 15664: (64, 'JsonDataSetWriterMessageDataType', False),
 15665: (64, 'JsonDataSetReaderMessageDataType', False),
 15667: (64, 'BrokerWriterGroupTransportDataType', False),
 15669: (64, 'BrokerDataSetWriterTransportDataType', False),
 15670: (64, 'BrokerDataSetReaderTransportDataType', False),
 15744: (8, 'TemporaryFileTransferType', False),
 15803: (8, 'FileTransferStateMachineType', False),
 15874: (64, 'OverrideValueHandling', False),
 15904: (64, 'DataSetFieldFlags', False),
 15906: (8, 'PubSubKeyServiceType', False),
 16307: (64, 'AudioDataType', False),
 16309: (16, 'SelectionListType', False),
 16313: (64, 'AdditionalParametersType', False),
 16361: (32, 'HasAlarmSuppressionGroup', False),
 16362: (32, 'AlarmGroupMember', False),
 16405: (8, 'AlarmGroupType', False),
 17080: (8, 'DiscrepancyAlarmType', False),
 17218: (8, 'SafetyConditionClassType', True),
 17219: (8, 'HighlyManagedAlarmConditionClassType', True),
 17220: (8, 'TrainingConditionClassType', True),
 17221: (8, 'TestingConditionSubClassType', True),
 17225: (8, 'AuditConditionSuppressionEventType', False),
 17242: (8, 'AuditConditionSilenceEventType', False),
 17259: (8, 'AuditConditionOutOfServiceEventType', False),
 17276: (32, 'HasEffectDisable', False),
 17277: (16, 'AlarmRateVariableType', False),
 17279: (8, 'AlarmMetricsType', False),
 17467: (64, 'DatagramConnectionTransportDataType', False),
 17496: (8, 'KeyCredentialConfigurationFolderType', False),
 17497: (16, 'AnalogUnitType', False),
 17548: (64, 'EphemeralKeyType', False),
 17570: (16, 'AnalogUnitRangeType', False),
 17588: (64, 'Index', False),
 17589: (8, 'DictionaryEntryType', True),
 17591: (8, 'DictionaryFolderType', False),
 17597: (32, 'HasDictionaryEntry', False),
 17598: (8, 'IrdiDictionaryEntryType', False),
 17600: (8, 'UriDictionaryEntryType', False),
 17602: (8, 'BaseInterfaceType', True),
 17603: (32, 'HasInterface', False),
 17604: (32, 'HasAddIn', False),
 17641: (8, 'RoleMappingRuleChangedAuditEventType', True),
 17709: (16, 'RationalNumberType', False),
 17714: (16, 'VectorType', True),
 17716: (16, '3DVectorType', False),
 17721: (8, 'ConnectionTransportType', True),
 17725: (8, 'WriterGroupType', False),
 17852: (8, 'AuthorizationServiceConfigurationType', False),
 17983: (32, 'HasEffectEnable', False),
 17984: (32, 'HasEffectSuppressed', False),
 17985: (32, 'HasEffectUnsuppressed', False),
 17986: (16, 'AudioVariableType', False),
 17997: (8, 'WriterGroupTransportType', True),
 17998: (8, 'WriterGroupMessageType', True),
 17999: (8, 'ReaderGroupType', False),
 18001: (8, 'KeyCredentialConfigurationType', False),
 18011: (8, 'KeyCredentialAuditEventType', True),
 18029: (8, 'KeyCredentialUpdatedAuditEventType', False),
 18047: (8, 'KeyCredentialDeletedAuditEventType', False),
 18347: (8, 'InstrumentDiagnosticAlarmType', False),
 18496: (8, 'SystemDiagnosticAlarmType', False),
 18665: (8, 'StatisticalConditionClassType', True),
 18772: (16, 'CartesianCoordinatesType', True),
 18774: (16, '3DCartesianCoordinatesType', False),
 18779: (16, 'OrientationType', True),
 18781: (16, '3DOrientationType', False),
 18786: (16, 'FrameType', True),
 18791: (16, '3DFrameType', False),
 18806: (64, 'RationalNumber', False),
 18807: (64, 'Vector', True),
 18808: (64, '3DVector', False),
 18809: (64, 'CartesianCoordinates', True),
 18810: (64, '3DCartesianCoordinates', False),
 18811: (64, 'Orientation', True),
 18812: (64, '3DOrientation', False),
 18813: (64, 'Frame', True),
 18814: (64, '3DFrame', False),
 19677: (8, 'PubSubDiagnosticsType', True),
 19723: (64, 'DiagnosticsLevel', False),
 19725: (16, 'PubSubDiagnosticsCounterType', False),
 19730: (64, 'PubSubDiagnosticsCounterClassification', False),
 19732: (8, 'PubSubDiagnosticsRootType', False),
 19786: (8, 'PubSubDiagnosticsConnectionType', False),
 19834: (8, 'PubSubDiagnosticsWriterGroupType', False),
 19903: (8, 'PubSubDiagnosticsReaderGroupType', False),
 19968: (8, 'PubSubDiagnosticsDataSetWriterType', False),
 20027: (8, 'PubSubDiagnosticsDataSetReaderType', False),
 20408: (64, 'DataSetOrderingType', False),
 20998: (64, 'VersionTime', False),
 21090: (8, 'ReaderGroupTransportType', True),
 21091: (8, 'ReaderGroupMessageType', True),
 21096: (8, 'DataSetWriterMessageType', True),
 21104: (8, 'DataSetReaderMessageType', True),
 21105: (8, 'UadpWriterGroupMessageType', False),
 21111: (8, 'UadpDataSetWriterMessageType', False),
 21116: (8, 'UadpDataSetReaderMessageType', False),
 21126: (8, 'JsonWriterGroupMessageType', False),
 21128: (8, 'JsonDataSetWriterMessageType', False),
 21130: (8, 'JsonDataSetReaderMessageType', False),
 21133: (8, 'DatagramWriterGroupTransportType', False),
 21136: (8, 'BrokerWriterGroupTransportType', False),
 21138: (8, 'BrokerDataSetWriterTransportType', False),
 21142: (8, 'BrokerDataSetReaderTransportType', False),
 21145: (8, 'NetworkAddressType', True),
 21147: (8, 'NetworkAddressUrlType', False),
}
# child -> parent for HasSubtype
SUPERTYPE = {
 15031: 3,
 15033: 3,
 15904: 5,
 94: 7,
 95: 7,
 288: 7,
 289: 7,
 347: 7,
 15406: 7,
 15583: 7,
 15642: 7,
 15646: 7,
 15654: 7,
 15658: 7,
 17588: 7,
 20998: 7,
 11737: 9,
 290: 11,
 291: 12,
 292: 12,
 295: 12,
 12877: 12,
 12878: 12,
 12879: 12,
 12880: 12,
 12881: 12,
 293: 13,
 294: 13,
 30: 15,
 311: 15,
 521: 15,
 16307: 15,
 388: 17,
 96: 22,
 97: 22,
 101: 22,
 296: 22,
 299: 22,
 304: 22,
 308: 22,
 312: 22,
 316: 22,
 331: 22,
 338: 22,
 344: 22,
 376: 22,
 379: 22,
 382: 22,
 385: 22,
 432: 22,
 537: 22,
 540: 22,
 583: 22,
 586: 22,
 589: 22,
 659: 22,
 719: 22,
 853: 22,
 856: 22,
 859: 22,
 862: 22,
 865: 22,
 868: 22,
 871: 22,
 874: 22,
 877: 22,
 884: 22,
 887: 22,
 891: 22,
 894: 22,
 897: 22,
 920: 22,
 948: 22,
 7594: 22,
 8912: 22,
 11943: 22,
 11944: 22,
 12079: 22,
 12080: 22,
 12171: 22,
 12172: 22,
 12189: 22,
 12554: 22,
 12755: 22,
 12756: 22,
 12890: 22,
 14273: 22,
 14524: 22,
 14525: 22,
 14533: 22,
 14593: 22,
 14744: 22,
 15396: 22,
 15502: 22,
 15528: 22,
 15530: 22,
 15534: 22,
 15578: 22,
 15580: 22,
 15597: 22,
 15598: 22,
 15605: 22,
 15609: 22,
 15611: 22,
 15616: 22,
 15617: 22,
 15618: 22,
 15621: 22,
 15622: 22,
 15623: 22,
 15628: 22,
 15629: 22,
 15630: 22,
 15634: 22,
 16313: 22,
 17548: 22,
 18806: 22,
 18807: 22,
 18809: 22,
 18811: 22,
 18813: 22,
 1: 24,
 12: 24,
 13: 24,
 14: 24,
 15: 24,
 16: 24,
 17: 24,
 18: 24,
 19: 24,
 20: 24,
 21: 24,
 22: 24,
 23: 24,
 25: 24,
 26: 24,
 29: 24,
 10: 26,
 11: 26,
 27: 26,
 28: 26,
 50: 26,
 2: 27,
 4: 27,
 6: 27,
 8: 27,
 3: 28,
 5: 28,
 7: 28,
 9: 28,
 98: 29,
 120: 29,
 256: 29,
 257: 29,
 302: 29,
 303: 29,
 307: 29,
 315: 29,
 348: 29,
 576: 29,
 851: 29,
 852: 29,
 890: 29,
 11234: 29,
 11293: 29,
 11939: 29,
 12077: 29,
 12552: 29,
 14647: 29,
 15008: 29,
 15632: 29,
 15874: 29,
 19723: 29,
 19730: 29,
 20408: 29,
 2000: 30,
 2001: 30,
 2002: 30,
 2003: 30,
 32: 31,
 33: 31,
 37: 32,
 38: 32,
 39: 32,
 40: 32,
 41: 32,
 51: 32,
 52: 32,
 53: 32,
 54: 32,
 117: 32,
 9004: 32,
 9005: 32,
 9006: 32,
 17597: 32,
 17603: 32,
 17604: 32,
 34: 33,
 35: 33,
 36: 33,
 14936: 33,
 44: 34,
 45: 34,
 16362: 35,
 48: 36,
 3065: 41,
 46: 44,
 47: 44,
 56: 44,
 49: 47,
 129: 47,
 14476: 47,
 15112: 47,
 15296: 47,
 15297: 47,
 16361: 47,
 17276: 54,
 17983: 54,
 17984: 54,
 17985: 54,
 61: 58,
 75: 58,
 76: 58,
 77: 58,
 2004: 58,
 2013: 58,
 2020: 58,
 2026: 58,
 2029: 58,
 2033: 58,
 2034: 58,
 2041: 58,
 2299: 58,
 2307: 58,
 2310: 58,
 2318: 58,
 2330: 58,
 2340: 58,
 11163: 58,
 11187: 58,
 11575: 58,
 11616: 58,
 11645: 58,
 12555: 58,
 12556: 58,
 12581: 58,
 14209: 58,
 14232: 58,
 14509: 58,
 14643: 58,
 15108: 58,
 15298: 58,
 15305: 58,
 15306: 58,
 15319: 58,
 15471: 58,
 15489: 58,
 15607: 58,
 15620: 58,
 15744: 58,
 15906: 58,
 17279: 58,
 17589: 58,
 17602: 58,
 17721: 58,
 17852: 58,
 17997: 58,
 17998: 58,
 18001: 58,
 19677: 58,
 21090: 58,
 21091: 58,
 21096: 58,
 21104: 58,
 21145: 58,
 11564: 61,
 13353: 61,
 13813: 61,
 14477: 61,
 15452: 61,
 16405: 61,
 17496: 61,
 17591: 61,
 63: 62,
 68: 62,
 69: 63,
 72: 63,
 2137: 63,
 2138: 63,
 2150: 63,
 2164: 63,
 2165: 63,
 2171: 63,
 2172: 63,
 2196: 63,
 2197: 63,
 2243: 63,
 2244: 63,
 2365: 63,
 2380: 63,
 2755: 63,
 2762: 63,
 3051: 63,
 9002: 63,
 11487: 63,
 15113: 63,
 15383: 63,
 16309: 63,
 17277: 63,
 17709: 63,
 17714: 63,
 17986: 63,
 18772: 63,
 18779: 63,
 18786: 63,
 19725: 63,
 99: 97,
 100: 97,
 131: 129,
 319: 316,
 322: 316,
 325: 316,
 938: 316,
 592: 589,
 595: 589,
 598: 589,
 601: 589,
 725: 719,
 2036: 2034,
 2039: 2034,
 11945: 2039,
 2052: 2041,
 2130: 2041,
 2132: 2041,
 2311: 2041,
 2738: 2041,
 2782: 2041,
 3035: 2041,
 11436: 2041,
 2058: 2052,
 2090: 2052,
 2099: 2052,
 2127: 2052,
 2059: 2058,
 2069: 2058,
 2080: 2058,
 2060: 2059,
 2071: 2069,
 2075: 2069,
 2078: 2069,
 2748: 2071,
 2082: 2080,
 2085: 2080,
 2086: 2080,
 2087: 2080,
 2088: 2080,
 2089: 2080,
 2091: 2090,
 2093: 2090,
 2095: 2090,
 2097: 2090,
 2100: 2099,
 2104: 2099,
 2999: 2104,
 3006: 2104,
 3012: 2104,
 2315: 2127,
 2790: 2127,
 12561: 2127,
 12620: 2127,
 17641: 2127,
 18011: 2127,
 2131: 2130,
 2787: 2130,
 2788: 2130,
 2789: 2130,
 11446: 2130,
 15535: 2130,
 2133: 2132,
 2771: 2299,
 2309: 2307,
 15109: 2307,
 2378: 2311,
 3806: 2315,
 11856: 2315,
 2372: 2365,
 12021: 2365,
 15318: 2365,
 17570: 2368,
 2373: 2372,
 2376: 2372,
 11238: 2372,
 2760: 2755,
 8995: 2755,
 2767: 2762,
 2391: 2771,
 2929: 2771,
 9318: 2771,
 15803: 2771,
 2830: 2782,
 2881: 2782,
 2803: 2790,
 2829: 2790,
 8927: 2790,
 8944: 2790,
 8961: 2790,
 11093: 2790,
 15013: 2790,
 17225: 2790,
 17242: 2790,
 17259: 2790,
 2915: 2881,
 2955: 2915,
 10523: 2915,
 17080: 2915,
 9341: 2955,
 9906: 2955,
 3014: 3012,
 3019: 3012,
 3022: 3012,
 102: 7594,
 9482: 9341,
 9623: 9341,
 9764: 9341,
 10060: 9906,
 10214: 9906,
 10368: 9906,
 10637: 10523,
 10751: 10637,
 11753: 10637,
 18347: 10637,
 18496: 10637,
 11164: 11163,
 11165: 11163,
 11166: 11163,
 17218: 11163,
 17219: 11163,
 17220: 11163,
 17221: 11163,
 18665: 11163,
 11595: 11575,
 12522: 11575,
 13225: 11753,
 12029: 12021,
 12038: 12021,
 12047: 12021,
 12057: 12021,
 12068: 12021,
 12557: 12556,
 12558: 12556,
 15181: 12556,
 12559: 12557,
 12560: 12557,
 12891: 12890,
 17725: 14232,
 17999: 14232,
 14534: 14509,
 14572: 14509,
 15005: 14525,
 15487: 14525,
 15488: 14525,
 15111: 15108,
 15127: 15108,
 15128: 15113,
 15317: 15113,
 21138: 15305,
 2368: 15318,
 17497: 15318,
 21142: 15319,
 15510: 15502,
 14523: 15534,
 15006: 15534,
 15548: 15535,
 15563: 15535,
 15581: 15580,
 15582: 15580,
 15669: 15598,
 15652: 15605,
 15664: 15605,
 15480: 15609,
 15520: 15609,
 15532: 15611,
 15667: 15611,
 15645: 15616,
 15657: 15616,
 15007: 15618,
 17467: 15618,
 15670: 15628,
 15653: 15629,
 15665: 15629,
 15631: 15630,
 15635: 15630,
 14416: 15906,
 17598: 17589,
 17600: 17589,
 17716: 17714,
 15064: 17721,
 15155: 17721,
 21133: 17997,
 21136: 17997,
 21105: 17998,
 21126: 17998,
 18029: 18011,
 18047: 18011,
 18774: 18772,
 18781: 18779,
 18791: 18786,
 18808: 18807,
 18810: 18809,
 18812: 18811,
 18814: 18813,
 19732: 19677,
 19786: 19677,
 19834: 19677,
 19903: 19677,
 19968: 19677,
 20027: 19677,
 21111: 21096,
 21128: 21096,
 21116: 21104,
 21130: 21104,
 21147: 21145,
}
REFS = [
 (3,45,15031),
 (3,45,15033),
 (5,45,15904),
 (7,45,94),
 (7,45,95),
 (7,45,288),
 (7,45,289),
 (7,45,347),
 (7,45,15406),
 (7,45,15583),
 (7,45,15642),
 (7,45,15646),
 (7,45,15654),
 (7,45,15658),
 (7,45,17588),
 (7,45,20998),
 (9,45,11737),
 (11,45,290),
 (12,45,291),
 (12,45,292),
 (12,45,295),
 (12,45,12877),
 (12,45,12878),
 (12,45,12879),
 (12,45,12880),
 (12,45,12881),
 (13,45,293),
 (13,45,294),
 (15,45,30),
 (15,45,311),
 (15,45,521),
 (15,45,16307),
 (17,45,388),
 (22,45,96),
 (22,45,97),
 (22,45,101),
 (22,45,296),
 (22,45,299),
 (22,45,304),
 (22,45,308),
 (22,45,312),
 (22,45,316),
 (22,45,331),
 (22,45,338),
 (22,45,344),
 (22,45,376),
 (22,45,379),
 (22,45,382),
 (22,45,385),
 (22,45,432),
 (22,45,537),
 (22,45,540),
 (22,45,583),
 (22,45,586),
 (22,45,589),
 (22,45,659),
 (22,45,719),
 (22,45,853),
 (22,45,856),
 (22,45,859),
 (22,45,862),
 (22,45,865),
 (22,45,868),
 (22,45,871),
 (22,45,874),
 (22,45,877),
 (22,45,884),
 (22,45,887),
 (22,45,891),
 (22,45,894),
 (22,45,897),
 (22,45,920),
 (22,45,948),
 (22,45,7594),
 (22,45,8912),
 (22,45,11943),
 (22,45,11944),
 (22,45,12079),
 (22,45,12080),
 (22,45,12171),
 (22,45,12172),
 (22,45,12189),
 (22,45,12554),
 (22,45,12755),
 (22,45,12756),
 (22,45,12890),
 (22,45,14273),
 (22,45,14524),
 (22,45,14525),
 (22,45,14533),
 (22,45,14593),
 (22,45,14744),
 (22,45,15396),
 (22,45,15502),
 (22,45,15528),
 (22,45,15530),
 (22,45,15534),
 (22,45,15578),
 (22,45,15580),
 (22,45,15597),
 (22,45,15598),
 (22,45,15605),
 (22,45,15609),
 (22,45,15611),
 (22,45,15616),
 (22,45,15617),
 (22,45,15618),
 (22,45,15621),
 (22,45,15622),
 (22,45,15623),
 (22,45,15628),
 (22,45,15629),
 (22,45,15630),
 (22,45,15634),
 (22,45,16313),
 (22,45,17548),
 (22,45,18806),
 (22,45,18807),
 (22,45,18809),
 (22,45,18811),
 (22,45,18813),
 (24,45,1),
 (24,45,12),
 (24,45,13),
 (24,45,14),
 (24,45,15),
 (24,45,16),
 (24,45,17),
 (24,45,18),
 (24,45,19),
 (24,45,20),
 (24,45,21),
 (24,45,22),
 (24,45,23),
 (24,45,25),
 (24,45,26),
 (24,45,29),
 (26,45,10),
 (26,45,11),
 (26,45,27),
 (26,45,28),
 (26,45,50),
 (27,45,2),
 (27,45,4),
 (27,45,6),
 (27,45,8),
 (28,45,3),
 (28,45,5),
 (28,45,7),
 (28,45,9),
 (29,45,98),
 (29,45,120),
 (29,45,256),
 (29,45,257),
 (29,45,302),
 (29,45,303),
 (29,45,307),
 (29,45,315),
 (29,45,348),
 (29,45,576),
 (29,45,851),
 (29,45,852),
 (29,45,890),
 (29,45,11234),
 (29,45,11293),
 (29,45,11939),
 (29,45,12077),
 (29,45,12552),
 (29,45,14647),
 (29,45,15008),
 (29,45,15632),
 (29,45,15874),
 (29,45,19723),
 (29,45,19730),
 (29,45,20408),
 (30,45,2000),
 (30,45,2001),
 (30,45,2002),
 (30,45,2003),
 (31,45,32),
 (31,45,33),
 (32,45,37),
 (32,45,38),
 (32,45,39),
 (32,45,40),
 (32,45,41),
 (32,45,51),
 (32,45,52),
 (32,45,53),
 (32,45,54),
 (32,45,117),
 (32,45,9004),
 (32,45,9005),
 (32,45,9006),
 (32,45,17597),
 (32,45,17603),
 (32,45,17604),
 (33,45,34),
 (33,45,35),
 (33,45,36),
 (33,45,14936),
 (34,45,44),
 (34,45,45),
 (35,45,16362),
 (36,45,48),
 (41,45,3065),
 (44,45,46),
 (44,45,47),
 (44,45,56),
 (47,45,49),
 (47,45,129),
 (47,45,14476),
 (47,45,15112),
 (47,45,15296),
 (47,45,15297),
 (47,45,16361),
 (54,45,17276),
 (54,45,17983),
 (54,45,17984),
 (54,45,17985),
 (58,45,61),
 (58,45,75),
 (58,45,76),
 (58,45,77),
 (58,45,2004),
 (58,45,2013),
 (58,45,2020),
 (58,45,2026),
 (58,45,2029),
 (58,45,2033),
 (58,45,2034),
 (58,45,2041),
 (58,45,2299),
 (58,45,2307),
 (58,45,2310),
 (58,45,2318),
 (58,45,2330),
 (58,45,2340),
 (58,45,11163),
 (58,45,11187),
 (58,45,11575),
 (58,45,11616),
 (58,45,11645),
 (58,45,12555),
 (58,45,12556),
 (58,45,12581),
 (58,45,14209),
 (58,45,14232),
 (58,45,14509),
 (58,45,14643),
 (58,45,15108),
 (58,45,15298),
 (58,45,15305),
 (58,45,15306),
 (58,45,15319),
 (58,45,15471),
 (58,45,15489),
 (58,45,15607),
 (58,45,15620),
 (58,45,15744),
 (58,45,15906),
 (58,45,17279),
 (58,45,17589),
 (58,45,17602),
 (58,45,17721),
 (58,45,17852),
 (58,45,17997),
 (58,45,17998),
 (58,45,18001),
 (58,45,19677),
 (58,45,21090),
 (58,45,21091),
 (58,45,21096),
 (58,45,21104),
 (58,45,21145),
 (61,45,11564),
 (61,45,13353),
 (61,45,13813),
 (61,45,14477),
 (61,45,15452),
 (61,45,16405),
 (61,45,17496),
 (61,45,17591),
 (62,45,63),
 (62,45,68),
 (63,45,69),
 (63,45,72),
 (63,45,2137),
 (63,45,2138),
 (63,45,2150),
 (63,45,2164),
 (63,45,2165),
 (63,45,2171),
 (63,45,2172),
 (63,45,2196),
 (63,45,2197),
 (63,45,2243),
 (63,45,2244),
 (63,45,2365),
 (63,45,2380),
 (63,45,2755),
 (63,45,2762),
 (63,45,3051),
 (63,45,9002),
 (63,45,11487),
 (63,45,15113),
 (63,45,15383),
 (63,45,16309),
 (63,45,17277),
 (63,45,17709),
 (63,45,17714),
 (63,45,17986),
 (63,45,18772),
 (63,45,18779),
 (63,45,18786),
 (63,45,19725),
 (78,40,77),
 (80,40,77),
 (83,40,77),
 (84,35,85),
 (84,35,86),
 (84,35,87),
 (84,40,61),
 (85,35,2253),
 (85,40,61),
 (86,35,88),
 (86,35,89),
 (86,35,90),
 (86,35,91),
 (86,35,3048),
 (86,40,61),
 (87,40,61),
 (88,35,58),
 (88,40,61),
 (89,35,62),
 (89,40,61),
 (90,35,24),
 (90,35,92),
 (90,35,93),
 (90,40,61),
 (91,35,31),
 (91,40,61),
 (92,40,75),
 (93,40,75),
 (97,45,99),
 (97,45,100),
 (129,45,131),
 (316,45,319),
 (316,45,322),
 (316,45,325),
 (316,45,938),
 (589,45,592),
 (589,45,595),
 (589,45,598),
 (589,45,601),
 (719,45,725),
 (2034,45,2036),
 (2034,45,2039),
 (2039,45,11945),
 (2041,45,2052),
 (2041,45,2130),
 (2041,45,2132),
 (2041,45,2311),
 (2041,45,2738),
 (2041,45,2782),
 (2041,45,3035),
 (2041,45,11436),
 (2052,45,2058),
 (2052,45,2090),
 (2052,45,2099),
 (2052,45,2127),
 (2058,45,2059),
 (2058,45,2069),
 (2058,45,2080),
 (2059,45,2060),
 (2069,45,2071),
 (2069,45,2075),
 (2069,45,2078),
 (2071,45,2748),
 (2080,45,2082),
 (2080,45,2085),
 (2080,45,2086),
 (2080,45,2087),
 (2080,45,2088),
 (2080,45,2089),
 (2090,45,2091),
 (2090,45,2093),
 (2090,45,2095),
 (2090,45,2097),
 (2099,45,2100),
 (2099,45,2104),
 (2104,45,2999),
 (2104,45,3006),
 (2104,45,3012),
 (2127,45,2315),
 (2127,45,2790),
 (2127,45,12561),
 (2127,45,12620),
 (2127,45,17641),
 (2127,45,18011),
 (2130,45,2131),
 (2130,45,2787),
 (2130,45,2788),
 (2130,45,2789),
 (2130,45,11446),
 (2130,45,15535),
 (2132,45,2133),
 (2253,40,2004),
 (2253,46,2254),
 (2253,46,2255),
 (2253,47,2256),
 (2253,47,2268),
 (2253,47,2274),
 (2254,40,68),
 (2255,40,68),
 (2256,40,2138),
 (2268,40,2013),
 (2268,47,11192),
 (2274,40,2020),
 (2299,45,2771),
 (2307,45,2309),
 (2307,45,15109),
 (2311,45,2378),
 (2315,45,3806),
 (2315,45,11856),
 (2365,45,2372),
 (2365,45,12021),
 (2365,45,15318),
 (2368,45,17570),
 (2372,45,2373),
 (2372,45,2376),
 (2372,45,11238),
 (2755,45,2760),
 (2755,45,8995),
 (2762,45,2767),
 (2771,45,2391),
 (2771,45,2929),
 (2771,45,9318),
 (2771,45,15803),
 (2782,45,2830),
 (2782,45,2881),
 (2790,45,2803),
 (2790,45,2829),
 (2790,45,8927),
 (2790,45,8944),
 (2790,45,8961),
 (2790,45,11093),
 (2790,45,15013),
 (2790,45,17225),
 (2790,45,17242),
 (2790,45,17259),
 (2881,45,2915),
 (2915,45,2955),
 (2915,45,10523),
 (2915,45,17080),
 (2955,45,9341),
 (2955,45,9906),
 (3012,45,3014),
 (3012,45,3019),
 (3012,45,3022),
 (3048,35,2041),
 (3048,40,61),
 (7594,45,102),
 (9341,45,9482),
 (9341,45,9623),
 (9341,45,9764),
 (9906,45,10060),
 (9906,45,10214),
 (9906,45,10368),
 (10523,45,10637),
 (10637,45,10751),
 (10637,45,11753),
 (10637,45,18347),
 (10637,45,18496),
 (11163,45,11164),
 (11163,45,11165),
 (11163,45,11166),
 (11163,45,17218),
 (11163,45,17219),
 (11163,45,17220),
 (11163,45,17221),
 (11163,45,18665),
 (11192,40,2330),
 (11508,40,77),
 (11510,40,77),
 (11575,45,11595),
 (11575,45,12522),
 (11753,45,13225),
 (12021,45,12029),
 (12021,45,12038),
 (12021,45,12047),
 (12021,45,12057),
 (12021,45,12068),
 (12556,45,12557),
 (12556,45,12558),
 (12556,45,15181),
 (12557,45,12559),
 (12557,45,12560),
 (12890,45,12891),
 (14232,45,17725),
 (14232,45,17999),
 (14509,45,14534),
 (14509,45,14572),
 (14525,45,15005),
 (14525,45,15487),
 (14525,45,15488),
 (15108,45,15111),
 (15108,45,15127),
 (15113,45,15128),
 (15113,45,15317),
 (15305,45,21138),
 (15318,45,2368),
 (15318,45,17497),
 (15319,45,21142),
 (15502,45,15510),
 (15534,45,14523),
 (15534,45,15006),
 (15535,45,15548),
 (15535,45,15563),
 (15580,45,15581),
 (15580,45,15582),
 (15598,45,15669),
 (15605,45,15652),
 (15605,45,15664),
 (15609,45,15480),
 (15609,45,15520),
 (15611,45,15532),
 (15611,45,15667),
 (15616,45,15645),
 (15616,45,15657),
 (15618,45,15007),
 (15618,45,17467),
 (15628,45,15670),
 (15629,45,15653),
 (15629,45,15665),
 (15630,45,15631),
 (15630,45,15635),
 (15906,45,14416),
 (17589,45,17598),
 (17589,45,17600),
 (17714,45,17716),
 (17721,45,15064),
 (17721,45,15155),
 (17997,45,21133),
 (17997,45,21136),
 (17998,45,21105),
 (17998,45,21126),
 (18011,45,18029),
 (18011,45,18047),
 (18772,45,18774),
 (18779,45,18781),
 (18786,45,18791),
 (18807,45,18808),
 (18809,45,18810),
 (18811,45,18812),
 (18813,45,18814),
 (19677,45,19732),
 (19677,45,19786),
 (19677,45,19834),
 (19677,45,19903),
 (19677,45,19968),
 (19677,45,20027),
 (21096,45,21111),
 (21096,45,21128),
 (21104,45,21116),
 (21104,45,21130),
 (21145,45,21147),
]
