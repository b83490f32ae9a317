/* generated by tools/gen_ns0.py from Opc.Ua.NodeSet2.xml */
static const NS0Node ns0Nodes[] = {
{1,64,0,0,"Boolean"},
{2,64,0,0,"SByte"},
{3,64,0,0,"Byte"},
{4,64,0,0,"Int16"},
{5,64,0,0,"UInt16"},
{6,64,0,0,"Int32"},
{7,64,0,0,"UInt32"},
{8,64,0,0,"Int64"},
{9,64,0,0,"UInt64"},
{10,64,0,0,"Float"},
{11,64,0,0,"Double"},
{12,64,0,0,"String"},
{13,64,0,0,"DateTime"},
{14,64,0,0,"Guid"},
{15,64,0,0,"ByteString"},
{16,64,0,0,"XmlElement"},
{17,64,0,0,"NodeId"},
{18,64,0,0,"ExpandedNodeId"},
{19,64,0,0,"StatusCode"},
{20,64,0,0,"QualifiedName"},
{21,64,0,0,"LocalizedText"},
{22,64,1,0,"Structure"},
{23,64,0,0,"DataValue"},
{24,64,1,0,"BaseDataType"},
{25,64,0,0,"DiagnosticInfo"},
{26,64,1,0,"Number"},
{27,64,1,0,"Integer"},
{28,64,1,0,"UInteger"},
{29,64,1,0,"Enumeration"},
{30,64,1,0,"Image"},
{31,32,1,1,"References"},
{32,32,1,1,"NonHierarchicalReferences"},
{33,32,1,0,"HierarchicalReferences"},
{34,32,1,0,"HasChild"},
{35,32,0,0,"Organizes"},
{36,32,0,0,"HasEventSource"},
{37,32,0,0,"HasModellingRule"},
{38,32,0,0,"HasEncoding"},
{39,32,0,0,"HasDescription"},
{40,32,0,0,"HasTypeDefinition"},
{41,32,0,0,"GeneratesEvent"},
{44,32,1,0,"Aggregates"},
{45,32,0,0,"HasSubtype"},
{46,32,0,0,"HasProperty"},
{47,32,0,0,"HasComponent"},
{48,32,0,0,"HasNotifier"},
{49,32,0,0,"HasOrderedComponent"},
{50,64,0,0,"Decimal"},
{51,32,0,0,"FromState"},
{52,32,0,0,"ToState"},
{53,32,0,0,"HasCause"},
{54,32,0,0,"HasEffect"},
{56,32,0,0,"HasHistoricalConfiguration"},
{58,8,0,0,"BaseObjectType"},
{61,8,0,0,"FolderType"},
{62,16,1,0,"BaseVariableType"},
{63,16,0,0,"BaseDataVariableType"},
{68,16,0,0,"PropertyType"},
{69,16,0,0,"DataTypeDescriptionType"},
{72,16,0,0,"DataTypeDictionaryType"},
{75,8,0,0,"DataTypeSystemType"},
{76,8,0,0,"DataTypeEncodingType"},
{77,8,0,0,"ModellingRuleType"},
{78,1,0,0,"Mandatory"},
{80,1,0,0,"Optional"},
{83,1,0,0,"ExposesItsArray"},
{84,1,0,0,"Root"},
{85,1,0,0,"Objects"},
{86,1,0,0,"Types"},
{87,1,0,0,"Views"},
{88,1,0,0,"ObjectTypes"},
{89,1,0,0,"VariableTypes"},
{90,1,0,0,"DataTypes"},
{91,1,0,0,"ReferenceTypes"},
{92,1,0,0,"XML Schema"},
{93,1,0,0,"OPC Binary"},
{94,64,0,0,"PermissionType"},
{95,64,0,0,"AccessRestrictionType"},
{96,64,0,0,"RolePermissionType"},
{97,64,1,0,"DataTypeDefinition"},
{98,64,0,0,"StructureType"},
{99,64,0,0,"StructureDefinition"},
{100,64,0,0,"EnumDefinition"},
{101,64,0,0,"StructureField"},
{102,64,0,0,"EnumField"},
{117,32,0,0,"HasSubStateMachine"},
{120,64,0,0,"NamingRuleType"},
{129,32,0,0,"HasArgumentDescription"},
{131,32,0,0,"HasOptionalInputArgumentDescription"},
{256,64,0,0,"IdType"},
{257,64,0,0,"NodeClass"},
{288,64,0,0,"IntegerId"},
{289,64,0,0,"Counter"},
{290,64,0,0,"Duration"},
{291,64,0,0,"NumericRange"},
{292,64,0,0,"Time"},
{293,64,0,0,"Date"},
{294,64,0,0,"UtcTime"},
{295,64,0,0,"LocaleId"},
{296,64,0,0,"Argument"},
{299,64,0,0,"StatusResult"},
{302,64,0,0,"MessageSecurityMode"},
{303,64,0,0,"UserTokenType"},
{304,64,0,0,"UserTokenPolicy"},
{307,64,0,0,"ApplicationType"},
{308,64,0,0,"ApplicationDescription"},
{311,64,0,0,"ApplicationInstanceCertificate"},
{312,64,0,0,"EndpointDescription"},
{315,64,0,0,"SecurityTokenRequestType"},
{316,64,1,0,"UserIdentityToken"},
{319,64,0,0,"AnonymousIdentityToken"},
{322,64,0,0,"UserNameIdentityToken"},
{325,64,0,0,"X509IdentityToken"},
{331,64,0,0,"EndpointConfiguration"},
{338,64,0,0,"BuildInfo"},
{344,64,0,0,"SignedSoftwareCertificate"},
{347,64,0,0,"AttributeWriteMask"},
{348,64,0,0,"NodeAttributesMask"},
{376,64,0,0,"AddNodesItem"},
{379,64,0,0,"AddReferencesItem"},
{382,64,0,0,"DeleteNodesItem"},
{385,64,0,0,"DeleteReferencesItem"},
{388,64,0,0,"SessionAuthenticationToken"},
{432,64,0,0,"RegisteredServer"},
{521,64,0,0,"ContinuationPoint"},
{537,64,0,0,"RelativePathElement"},
{540,64,0,0,"RelativePath"},
{576,64,0,0,"FilterOperator"},
{583,64,0,0,"ContentFilterElement"},
{586,64,0,0,"ContentFilter"},
{589,64,0,0,"FilterOperand"},
{592,64,0,0,"ElementOperand"},
{595,64,0,0,"LiteralOperand"},
{598,64,0,0,"AttributeOperand"},
{601,64,0,0,"SimpleAttributeOperand"},
{659,64,0,0,"HistoryEvent"},
{719,64,0,0,"MonitoringFilter"},
{725,64,0,0,"EventFilter"},
{851,64,0,0,"RedundancySupport"},
{852,64,0,0,"ServerState"},
{853,64,0,0,"RedundantServerDataType"},
{856,64,0,0,"SamplingIntervalDiagnosticsDataType"},
{859,64,0,0,"ServerDiagnosticsSummaryDataType"},
{862,64,0,0,"ServerStatusDataType"},
{865,64,0,0,"SessionDiagnosticsDataType"},
{868,64,0,0,"SessionSecurityDiagnosticsDataType"},
{871,64,0,0,"ServiceCounterDataType"},
{874,64,0,0,"SubscriptionDiagnosticsDataType"},
{877,64,0,0,"ModelChangeStructureDataType"},
{884,64,0,0,"Range"},
{887,64,0,0,"EUInformation"},
{890,64,0,0,"ExceptionDeviationFormat"},
{891,64,0,0,"Annotation"},
{894,64,0,0,"ProgramDiagnosticDataType"},
{897,64,0,0,"SemanticChangeStructureDataType"},
{920,64,0,0,"HistoryEventFieldList"},
{938,64,0,0,"IssuedIdentityToken"},
{948,64,0,0,"AggregateConfiguration"},
{2000,64,0,0,"ImageBMP"},
{2001,64,0,0,"ImageGIF"},
{2002,64,0,0,"ImageJPG"},
{2003,64,0,0,"ImagePNG"},
{2004,8,0,0,"ServerType"},
{2013,8,0,0,"ServerCapabilitiesType"},
{2020,8,0,0,"ServerDiagnosticsType"},
{2026,8,0,0,"SessionsDiagnosticsSummaryType"},
{2029,8,0,0,"SessionDiagnosticsObjectType"},
{2033,8,0,0,"VendorServerInfoType"},
{2034,8,0,0,"ServerRedundancyType"},
{2036,8,0,0,"TransparentRedundancyType"},
{2039,8,0,0,"NonTransparentRedundancyType"},
{2041,8,1,0,"BaseEventType"},
{2052,8,1,0,"AuditEventType"},
{2058,8,1,0,"AuditSecurityEventType"},
{2059,8,1,0,"AuditChannelEventType"},
{2060,8,1,0,"AuditOpenSecureChannelEventType"},
{2069,8,1,0,"AuditSessionEventType"},
{2071,8,1,0,"AuditCreateSessionEventType"},
{2075,8,1,0,"AuditActivateSessionEventType"},
{2078,8,1,0,"AuditCancelEventType"},
{2080,8,1,0,"AuditCertificateEventType"},
{2082,8,1,0,"AuditCertificateDataMismatchEventType"},
{2085,8,1,0,"AuditCertificateExpiredEventType"},
{2086,8,1,0,"AuditCertificateInvalidEventType"},
{2087,8,1,0,"AuditCertificateUntrustedEventType"},
{2088,8,1,0,"AuditCertificateRevokedEventType"},
{2089,8,1,0,"AuditCertificateMismatchEventType"},
{2090,8,1,0,"AuditNodeManagementEventType"},
{2091,8,1,0,"AuditAddNodesEventType"},
{2093,8,1,0,"AuditDeleteNodesEventType"},
{2095,8,1,0,"AuditAddReferencesEventType"},
{2097,8,1,0,"AuditDeleteReferencesEventType"},
{2099,8,1,0,"AuditUpdateEventType"},
{2100,8,1,0,"AuditWriteUpdateEventType"},
{2104,8,1,0,"AuditHistoryUpdateEventType"},
{2127,8,1,0,"AuditUpdateMethodEventType"},
{2130,8,1,0,"SystemEventType"},
{2131,8,1,0,"DeviceFailureEventType"},
{2132,8,1,0,"BaseModelChangeEventType"},
{2133,8,1,0,"GeneralModelChangeEventType"},
{2137,16,1,0,"ServerVendorCapabilityType"},
{2138,16,0,0,"ServerStatusType"},
{2150,16,0,0,"ServerDiagnosticsSummaryType"},
{2164,16,0,0,"SamplingIntervalDiagnosticsArrayType"},
{2165,16,0,0,"SamplingIntervalDiagnosticsType"},
{2171,16,0,0,"SubscriptionDiagnosticsArrayType"},
{2172,16,0,0,"SubscriptionDiagnosticsType"},
{2196,16,0,0,"SessionDiagnosticsArrayType"},
{2197,16,0,0,"SessionDiagnosticsVariableType"},
{2243,16,0,0,"SessionSecurityDiagnosticsArrayType"},
{2244,16,0,0,"SessionSecurityDiagnosticsType"},
{2253,1,0,0,"Server"},
{2254,2,0,0,"ServerArray"},
{2255,2,0,0,"NamespaceArray"},
{2256,2,0,0,"ServerStatus"},
{2268,1,0,0,"ServerCapabilities"},
{2274,1,0,0,"ServerDiagnostics"},
{2299,8,0,0,"StateMachineType"},
{2307,8,0,0,"StateType"},
{2309,8,0,0,"InitialStateType"},
{2310,8,0,0,"TransitionType"},
{2311,8,1,0,"TransitionEventType"},
{2315,8,1,0,"AuditUpdateStateEventType"},
{2318,8,0,0,"HistoricalDataConfigurationType"},
{2330,8,0,0,"HistoryServerCapabilitiesType"},
{2340,8,0,0,"AggregateFunctionType"},
{2365,16,0,0,"DataItemType"},
{2368,16,0,0,"AnalogItemType"},
{2372,16,1,0,"DiscreteItemType"},
{2373,16,0,0,"TwoStateDiscreteType"},
{2376,16,0,0,"MultiStateDiscreteType"},
{2378,8,1,0,"ProgramTransitionEventType"},
{2380,16,0,0,"ProgramDiagnosticType"},
{2391,8,0,0,"ProgramStateMachineType"},
{2738,8,1,0,"SemanticChangeEventType"},
{2748,8,1,0,"AuditUrlMismatchEventType"},
{2755,16,0,0,"StateVariableType"},
{2760,16,0,0,"FiniteStateVariableType"},
{2762,16,0,0,"TransitionVariableType"},
{2767,16,0,0,"FiniteTransitionVariableType"},
{2771,8,1,0,"FiniteStateMachineType"},
{2782,8,1,0,"ConditionType"},
{2787,8,1,0,"RefreshStartEventType"},
{2788,8,1,0,"RefreshEndEventType"},
{2789,8,1,0,"RefreshRequiredEventType"},
{2790,8,0,0,"AuditConditionEventType"},
{2803,8,0,0,"AuditConditionEnableEventType"},
{2829,8,0,0,"AuditConditionCommentEventType"},
{2830,8,0,0,"DialogConditionType"},
{2881,8,0,0,"AcknowledgeableConditionType"},
{2915,8,0,0,"AlarmConditionType"},
{2929,8,0,0,"ShelvedStateMachineType"},
{2955,8,0,0,"LimitAlarmType"},
{2999,8,1,0,"AuditHistoryEventUpdateEventType"},
{3006,8,1,0,"AuditHistoryValueUpdateEventType"},
{3012,8,1,0,"AuditHistoryDeleteEventType"},
{3014,8,1,0,"AuditHistoryRawModifyDeleteEventType"},
{3019,8,1,0,"AuditHistoryAtTimeDeleteEventType"},
{3022,8,1,0,"AuditHistoryEventDeleteEventType"},
{3035,8,1,0,"EventQueueOverflowEventType"},
{3048,1,0,0,"EventTypes"},
{3051,16,0,0,"BuildInfoType"},
{3065,32,0,0,"AlwaysGeneratesEvent"},
{3806,8,0,0,"ProgramTransitionAuditEventType"},
{7594,64,0,0,"EnumValueType"},
{8912,64,0,0,"TimeZoneDataType"},
{8927,8,0,0,"AuditConditionRespondEventType"},
{8944,8,0,0,"AuditConditionAcknowledgeEventType"},
{8961,8,0,0,"AuditConditionConfirmEventType"},
{8995,16,0,0,"TwoStateVariableType"},
{9002,16,0,0,"ConditionVariableType"},
{9004,32,0,0,"HasTrueSubState"},
{9005,32,0,0,"HasFalseSubState"},
{9006,32,0,0,"HasCondition"},
{9318,8,0,0,"ExclusiveLimitStateMachineType"},
{9341,8,0,0,"ExclusiveLimitAlarmType"},
{9482,8,0,0,"ExclusiveLevelAlarmType"},
{9623,8,0,0,"ExclusiveRateOfChangeAlarmType"},
{9764,8,0,0,"ExclusiveDeviationAlarmType"},
{9906,8,0,0,"NonExclusiveLimitAlarmType"},
{10060,8,0,0,"NonExclusiveLevelAlarmType"},
{10214,8,0,0,"NonExclusiveRateOfChangeAlarmType"},
{10368,8,0,0,"NonExclusiveDeviationAlarmType"},
{10523,8,0,0,"DiscreteAlarmType"},
{10637,8,0,0,"OffNormalAlarmType"},
{10751,8,0,0,"TripAlarmType"},
{11093,8,0,0,"AuditConditionShelvingEventType"},
{11163,8,1,0,"BaseConditionClassType"},
{11164,8,1,0,"ProcessConditionClassType"},
{11165,8,1,0,"MaintenanceConditionClassType"},
{11166,8,1,0,"SystemConditionClassType"},
{11187,8,0,0,"AggregateConfigurationType"},
{11192,1,0,0,"HistoryServerCapabilities"},
{11234,64,0,0,"HistoryUpdateType"},
{11238,16,0,0,"MultiStateValueDiscreteType"},
{11293,64,0,0,"PerformUpdateType"},
{11436,8,1,0,"ProgressEventType"},
{11446,8,1,0,"SystemStatusChangeEventType"},
{11487,16,0,0,"OptionSetType"},
{11508,1,0,0,"OptionalPlaceholder"},
{11510,1,0,0,"MandatoryPlaceholder"},
{11564,8,0,0,"OperationLimitsType"},
{11575,8,0,0,"FileType"},
{11595,8,0,0,"AddressSpaceFileType"},
{11616,8,0,0,"NamespaceMetadataType"},
{11645,8,0,0,"NamespacesType"},
{11737,64,0,0,"BitFieldMaskDataType"},
{11753,8,1,0,"SystemOffNormalAlarmType"},
{11856,8,1,0,"AuditProgramTransitionEventType"},
{11939,64,0,0,"OpenFileMode"},
{11943,64,0,0,"EndpointUrlListDataType"},
{11944,64,0,0,"NetworkGroupDataType"},
{11945,8,0,0,"NonTransparentNetworkRedundancyType"},
{12021,16,1,0,"ArrayItemType"},
{12029,16,0,0,"YArrayItemType"},
{12038,16,0,0,"XYArrayItemType"},
{12047,16,0,0,"ImageItemType"},
{12057,16,0,0,"CubeItemType"},
{12068,16,0,0,"NDimensionArrayItemType"},
{12077,64,0,0,"AxisScaleEnumeration"},
{12079,64,0,0,"AxisInformation"},
{12080,64,0,0,"XVType"},
{12171,64,0,0,"ComplexNumberType"},
{12172,64,0,0,"DoubleComplexNumberType"},
{12189,64,0,0,"ServerOnNetwork"},
{12522,8,0,0,"TrustListType"},
{12552,64,0,0,"TrustListMasks"},
{12554,64,0,0,"TrustListDataType"},
{12555,8,0,0,"CertificateGroupType"},
{12556,8,1,0,"CertificateType"},
{12557,8,1,0,"ApplicationCertificateType"},
{12558,8,0,0,"HttpsCertificateType"},
{12559,8,0,0,"RsaMinApplicationCertificateType"},
{12560,8,0,0,"RsaSha256ApplicationCertificateType"},
{12561,8,1,0,"TrustListUpdatedAuditEventType"},
{12581,8,0,0,"ServerConfigurationType"},
{12620,8,1,0,"CertificateUpdatedAuditEventType"},
{12755,64,0,0,"OptionSet"},
{12756,64,1,0,"Union"},
{12877,64,0,0,"NormalizedString"},
{12878,64,0,0,"DecimalString"},
{12879,64,0,0,"DurationString"},
{12880,64,0,0,"TimeString"},
{12881,64,0,0,"DateString"},
{12890,64,0,0,"DiscoveryConfiguration"},
{12891,64,0,0,"MdnsDiscoveryConfiguration"},
{13225,8,0,0,"CertificateExpirationAlarmType"},
{13353,8,0,0,"FileDirectoryType"},
{13813,8,0,0,"CertificateGroupFolderType"},
{14209,8,0,0,"PubSubConnectionType"},
{14232,8,1,0,"PubSubGroupType"},
{14273,64,0,0,"PublishedVariableDataType"},
{14416,8,0,0,"PublishSubscribeType"},
{14476,32,0,0,"HasPubSubConnection"},
{14477,8,0,0,"DataSetFolderType"},
{14509,8,0,0,"PublishedDataSetType"},
{14523,64,0,0,"DataSetMetaDataType"},
{14524,64,0,0,"FieldMetaData"},
{14525,64,1,0,"DataTypeDescription"},
{14533,64,0,0,"KeyValuePair"},
{14534,8,0,0,"PublishedDataItemsType"},
{14572,8,0,0,"PublishedEventsType"},
{14593,64,0,0,"ConfigurationVersionDataType"},
{14643,8,0,0,"PubSubStatusType"},
{14647,64,0,0,"PubSubState"},
{14744,64,0,0,"FieldTargetDataType"},
{14936,32,0,0,"DataSetToWriter"},
{15005,64,0,0,"SimpleTypeDescription"},
{15006,64,0,0,"UABinaryFileDataType"},
{15007,64,0,0,"BrokerConnectionTransportDataType"},
{15008,64,0,0,"BrokerTransportQualityOfService"},
{15013,8,0,0,"AuditConditionResetEventType"},
{15031,64,0,0,"AccessLevelType"},
{15033,64,0,0,"EventNotifierType"},
{15064,8,0,0,"DatagramConnectionTransportType"},
{15108,8,0,0,"SubscribedDataSetType"},
{15109,8,0,0,"ChoiceStateType"},
{15111,8,0,0,"TargetVariablesType"},
{15112,32,0,0,"HasGuard"},
{15113,16,0,0,"GuardVariableType"},
{15127,8,0,0,"SubscribedDataSetMirrorType"},
{15128,16,0,0,"ExpressionGuardVariableType"},
{15155,8,0,0,"BrokerConnectionTransportType"},
{15181,8,0,0,"UserCredentialCertificateType"},
{15296,32,0,0,"HasDataSetWriter"},
{15297,32,0,0,"HasDataSetReader"},
{15298,8,0,0,"DataSetWriterType"},
{15305,8,1,0,"DataSetWriterTransportType"},
{15306,8,0,0,"DataSetReaderType"},
{15317,16,0,0,"ElseGuardVariableType"},
{15318,16,0,0,"BaseAnalogType"},
{15319,8,1,0,"DataSetReaderTransportType"},
{15383,16,0,0,"ProgramDiagnostic2Type"},
{15396,64,0,0,"ProgramDiagnostic2DataType"},
{15406,64,0,0,"AccessLevelExType"},
{15452,8,0,0,"SecurityGroupFolderType"},
{15471,8,0,0,"SecurityGroupType"},
{15480,64,0,0,"WriterGroupDataType"},
{15487,64,0,0,"StructureDescription"},
{15488,64,0,0,"EnumDescription"},
{15489,8,0,0,"ExtensionFieldsType"},
{15502,64,1,0,"NetworkAddressDataType"},
{15510,64,0,0,"NetworkAddressUrlDataType"},
{15520,64,0,0,"ReaderGroupDataType"},
{15528,64,0,0,"EndpointType"},
{15530,64,0,0,"PubSubConfigurationDataType"},
{15532,64,0,0,"DatagramWriterGroupTransportDataType"},
{15534,64,1,0,"DataTypeSchemaHeader"},
{15535,8,1,0,"PubSubStatusEventType"},
{15548,8,1,0,"PubSubTransportLimitsExceedEventType"},
{15563,8,1,0,"PubSubCommunicationFailureEventType"},
{15578,64,0,0,"PublishedDataSetDataType"},
{15580,64,1,0,"PublishedDataSetSourceDataType"},
{15581,64,0,0,"PublishedDataItemsDataType"},
{15582,64,0,0,"PublishedEventsDataType"},
{15583,64,0,0,"DataSetFieldContentMask"},
{15597,64,0,0,"DataSetWriterDataType"},
{15598,64,1,0,"DataSetWriterTransportDataType"},
{15605,64,1,0,"DataSetWriterMessageDataType"},
{15607,8,0,0,"RoleSetType"},
{15609,64,1,0,"PubSubGroupDataType"},
{15611,64,1,0,"WriterGroupTransportDataType"},
{15616,64,1,0,"WriterGroupMessageDataType"},
{15617,64,0,0,"PubSubConnectionDataType"},
{15618,64,1,0,"ConnectionTransportDataType"},
{15620,8,0,0,"RoleType"},
{15621,64,1,0,"ReaderGroupTransportDataType"},
{15622,64,1,0,"ReaderGroupMessageDataType"},
{15623,64,0,0,"DataSetReaderDataType"},
{15628,64,1,0,"DataSetReaderTransportDataType"},
{15629,64,1,0,"DataSetReaderMessageDataType"},
{15630,64,1,0,"SubscribedDataSetDataType"},
{15631,64,0,0,"TargetVariablesDataType"},
{15632,64,0,0,"IdentityCriteriaType"},
{15634,64,0,0,"IdentityMappingRuleType"},
{15635,64,0,0,"SubscribedDataSetMirrorDataType"},
{15642,64,0,0,"UadpNetworkMessageContentMask"},
{15645,64,0,0,"UadpWriterGroupMessageDataType"},
{15646,64,0,0,"UadpDataSetMessageContentMask"},
{15652,64,0,0,"UadpDataSetWriterMessageDataType"},
{15653,64,0,0,"UadpDataSetReaderMessageDataType"},
{15654,64,0,0,"JsonNetworkMessageContentMask"},
{15657,64,0,0,"JsonWriterGroupMessageDataType"},
{15658,64,0,0,"JsonDataSetMessageContentMask"},
{15664,64,0,0,"JsonDataSetWriterMessageDataType"},
{15665,64,0,0,"JsonDataSetReaderMessageDataType"},
{15667,64,0,0,"BrokerWriterGroupTransportDataType"},
{15669,64,0,0,"BrokerDataSetWriterTransportDataType"},
{15670,64,0,0,"BrokerDataSetReaderTransportDataType"},
{15744,8,0,0,"TemporaryFileTransferType"},
{15803,8,0,0,"FileTransferStateMachineType"},
{15874,64,0,0,"OverrideValueHandling"},
{15904,64,0,0,"DataSetFieldFlags"},
{15906,8,0,0,"PubSubKeyServiceType"},
{16307,64,0,0,"AudioDataType"},
{16309,16,0,0,"SelectionListType"},
{16313,64,0,0,"AdditionalParametersType"},
{16361,32,0,0,"HasAlarmSuppressionGroup"},
{16362,32,0,0,"AlarmGroupMember"},
{16405,8,0,0,"AlarmGroupType"},
{17080,8,0,0,"DiscrepancyAlarmType"},
{17218,8,1,0,"SafetyConditionClassType"},
{17219,8,1,0,"HighlyManagedAlarmConditionClassType"},
{17220,8,1,0,"TrainingConditionClassType"},
{17221,8,1,0,"TestingConditionSubClassType"},
{17225,8,0,0,"AuditConditionSuppressionEventType"},
{17242,8,0,0,"AuditConditionSilenceEventType"},
{17259,8,0,0,"AuditConditionOutOfServiceEventType"},
{17276,32,0,0,"HasEffectDisable"},
{17277,16,0,0,"AlarmRateVariableType"},
{17279,8,0,0,"AlarmMetricsType"},
{17467,64,0,0,"DatagramConnectionTransportDataType"},
{17496,8,0,0,"KeyCredentialConfigurationFolderType"},
{17497,16,0,0,"AnalogUnitType"},
{17548,64,0,0,"EphemeralKeyType"},
{17570,16,0,0,"AnalogUnitRangeType"},
{17588,64,0,0,"Index"},
{17589,8,1,0,"DictionaryEntryType"},
{17591,8,0,0,"DictionaryFolderType"},
{17597,32,0,0,"HasDictionaryEntry"},
{17598,8,0,0,"IrdiDictionaryEntryType"},
{17600,8,0,0,"UriDictionaryEntryType"},
{17602,8,1,0,"BaseInterfaceType"},
{17603,32,0,0,"HasInterface"},
{17604,32,0,0,"HasAddIn"},
{17641,8,1,0,"RoleMappingRuleChangedAuditEventType"},
{17709,16,0,0,"RationalNumberType"},
{17714,16,1,0,"VectorType"},
{17716,16,0,0,"3DVectorType"},
{17721,8,1,0,"ConnectionTransportType"},
{17725,8,0,0,"WriterGroupType"},
{17852,8,0,0,"AuthorizationServiceConfigurationType"},
{17983,32,0,0,"HasEffectEnable"},
{17984,32,0,0,"HasEffectSuppressed"},
{17985,32,0,0,"HasEffectUnsuppressed"},
{17986,16,0,0,"AudioVariableType"},
{17997,8,1,0,"WriterGroupTransportType"},
{17998,8,1,0,"WriterGroupMessageType"},
{17999,8,0,0,"ReaderGroupType"},
{18001,8,0,0,"KeyCredentialConfigurationType"},
{18011,8,1,0,"KeyCredentialAuditEventType"},
{18029,8,0,0,"KeyCredentialUpdatedAuditEventType"},
{18047,8,0,0,"KeyCredentialDeletedAuditEventType"},
{18347,8,0,0,"InstrumentDiagnosticAlarmType"},
{18496,8,0,0,"SystemDiagnosticAlarmType"},
{18665,8,1,0,"StatisticalConditionClassType"},
{18772,16,1,0,"CartesianCoordinatesType"},
{18774,16,0,0,"3DCartesianCoordinatesType"},
{18779,16,1,0,"OrientationType"},
{18781,16,0,0,"3DOrientationType"},
{18786,16,1,0,"FrameType"},
{18791,16,0,0,"3DFrameType"},
{18806,64,0,0,"RationalNumber"},
{18807,64,1,0,"Vector"},
{18808,64,0,0,"3DVector"},
{18809,64,1,0,"CartesianCoordinates"},
{18810,64,0,0,"3DCartesianCoordinates"},
{18811,64,1,0,"Orientation"},
{18812,64,0,0,"3DOrientation"},
{18813,64,1,0,"Frame"},
{18814,64,0,0,"3DFrame"},
{19677,8,1,0,"PubSubDiagnosticsType"},
{19723,64,0,0,"DiagnosticsLevel"},
{19725,16,0,0,"PubSubDiagnosticsCounterType"},
{19730,64,0,0,"PubSubDiagnosticsCounterClassification"},
{19732,8,0,0,"PubSubDiagnosticsRootType"},
{19786,8,0,0,"PubSubDiagnosticsConnectionType"},
{19834,8,0,0,"PubSubDiagnosticsWriterGroupType"},
{19903,8,0,0,"PubSubDiagnosticsReaderGroupType"},
{19968,8,0,0,"PubSubDiagnosticsDataSetWriterType"},
{20027,8,0,0,"PubSubDiagnosticsDataSetReaderType"},
{20408,64,0,0,"DataSetOrderingType"},
{20998,64,0,0,"VersionTime"},
{21090,8,1,0,"ReaderGroupTransportType"},
{21091,8,1,0,"ReaderGroupMessageType"},
{21096,8,1,0,"DataSetWriterMessageType"},
{21104,8,1,0,"DataSetReaderMessageType"},
{21105,8,0,0,"UadpWriterGroupMessageType"},
{21111,8,0,0,"UadpDataSetWriterMessageType"},
{21116,8,0,0,"UadpDataSetReaderMessageType"},
{21126,8,0,0,"JsonWriterGroupMessageType"},
{21128,8,0,0,"JsonDataSetWriterMessageType"},
{21130,8,0,0,"JsonDataSetReaderMessageType"},
{21133,8,0,0,"DatagramWriterGroupTransportType"},
{21136,8,0,0,"BrokerWriterGroupTransportType"},
{21138,8,0,0,"BrokerDataSetWriterTransportType"},
{21142,8,0,0,"BrokerDataSetReaderTransportType"},
{21145,8,1,0,"NetworkAddressType"},
{21147,8,0,0,"NetworkAddressUrlType"},
};
static const NS0Ref ns0Refs[] = {
{3,45,15031},
{3,45,15033},
{5,45,15904},
{7,45,94},
{7,45,95},
{7,45,288},
{7,45,289},
{7,45,347},
{7,45,15406},
{7,45,15583},
{7,45,15642},
{7,45,15646},
{7,45,15654},
{7,45,15658},
{7,45,17588},
{7,45,20998},
{9,45,11737},
{11,45,290},
{12,45,291},
{12,45,292},
{12,45,295},
{12,45,12877},
{12,45,12878},
{12,45,12879},
{12,45,12880},
{12,45,12881},
{13,45,293},
{13,45,294},
{15,45,30},
{15,45,311},
{15,45,521},
{15,45,16307},
{17,45,388},
{22,45,96},
{22,45,97},
{22,45,101},
{22,45,296},
{22,45,299},
{22,45,304},
{22,45,308},
{22,45,312},
{22,45,316},
{22,45,331},
{22,45,338},
{22,45,344},
{22,45,376},
{22,45,379},
{22,45,382},
{22,45,385},
{22,45,432},
{22,45,537},
{22,45,540},
{22,45,583},
{22,45,586},
{22,45,589},
{22,45,659},
{22,45,719},
{22,45,853},
{22,45,856},
{22,45,859},
{22,45,862},
{22,45,865},
{22,45,868},
{22,45,871},
{22,45,874},
{22,45,877},
{22,45,884},
{22,45,887},
{22,45,891},
{22,45,894},
{22,45,897},
{22,45,920},
{22,45,948},
{22,45,7594},
{22,45,8912},
{22,45,11943},
{22,45,11944},
{22,45,12079},
{22,45,12080},
{22,45,12171},
{22,45,12172},
{22,45,12189},
{22,45,12554},
{22,45,12755},
{22,45,12756},
{22,45,12890},
{22,45,14273},
{22,45,14524},
{22,45,14525},
{22,45,14533},
{22,45,14593},
{22,45,14744},
{22,45,15396},
{22,45,15502},
{22,45,15528},
{22,45,15530},
{22,45,15534},
{22,45,15578},
{22,45,15580},
{22,45,15597},
{22,45,15598},
{22,45,15605},
{22,45,15609},
{22,45,15611},
{22,45,15616},
{22,45,15617},
{22,45,15618},
{22,45,15621},
{22,45,15622},
{22,45,15623},
{22,45,15628},
{22,45,15629},
{22,45,15630},
{22,45,15634},
{22,45,16313},
{22,45,17548},
{22,45,18806},
{22,45,18807},
{22,45,18809},
{22,45,18811},
{22,45,18813},
{24,45,1},
{24,45,12},
{24,45,13},
{24,45,14},
{24,45,15},
{24,45,16},
{24,45,17},
{24,45,18},
{24,45,19},
{24,45,20},
{24,45,21},
{24,45,22},
{24,45,23},
{24,45,25},
{24,45,26},
{24,45,29},
{26,45,10},
{26,45,11},
{26,45,27},
{26,45,28},
{26,45,50},
{27,45,2},
{27,45,4},
{27,45,6},
{27,45,8},
{28,45,3},
{28,45,5},
{28,45,7},
{28,45,9},
{29,45,98},
{29,45,120},
{29,45,256},
{29,45,257},
{29,45,302},
{29,45,303},
{29,45,307},
{29,45,315},
{29,45,348},
{29,45,576},
{29,45,851},
{29,45,852},
{29,45,890},
{29,45,11234},
{29,45,11293},
{29,45,11939},
{29,45,12077},
{29,45,12552},
{29,45,14647},
{29,45,15008},
{29,45,15632},
{29,45,15874},
{29,45,19723},
{29,45,19730},
{29,45,20408},
{30,45,2000},
{30,45,2001},
{30,45,2002},
{30,45,2003},
{31,45,32},
{31,45,33},
{32,45,37},
{32,45,38},
{32,45,39},
{32,45,40},
{32,45,41},
{32,45,51},
{32,45,52},
{32,45,53},
{32,45,54},
{32,45,117},
{32,45,9004},
{32,45,9005},
{32,45,9006},
{32,45,17597},
{32,45,17603},
{32,45,17604},
{33,45,34},
{33,45,35},
{33,45,36},
{33,45,14936},
{34,45,44},
{34,45,45},
{35,45,16362},
{36,45,48},
{41,45,3065},
{44,45,46},
{44,45,47},
{44,45,56},
{47,45,49},
{47,45,129},
{47,45,14476},
{47,45,15112},
{47,45,15296},
{47,45,15297},
{47,45,16361},
{54,45,17276},
{54,45,17983},
{54,45,17984},
{54,45,17985},
{58,45,61},
{58,45,75},
{58,45,76},
{58,45,77},
{58,45,2004},
{58,45,2013},
{58,45,2020},
{58,45,2026},
{58,45,2029},
{58,45,2033},
{58,45,2034},
{58,45,2041},
{58,45,2299},
{58,45,2307},
{58,45,2310},
{58,45,2318},
{58,45,2330},
{58,45,2340},
{58,45,11163},
{58,45,11187},
{58,45,11575},
{58,45,11616},
{58,45,11645},
{58,45,12555},
{58,45,12556},
{58,45,12581},
{58,45,14209},
{58,45,14232},
{58,45,14509},
{58,45,14643},
{58,45,15108},
{58,45,15298},
{58,45,15305},
{58,45,15306},
{58,45,15319},
{58,45,15471},
{58,45,15489},
{58,45,15607},
{58,45,15620},
{58,45,15744},
{58,45,15906},
{58,45,17279},
{58,45,17589},
{58,45,17602},
{58,45,17721},
{58,45,17852},
{58,45,17997},
{58,45,17998},
{58,45,18001},
{58,45,19677},
{58,45,21090},
{58,45,21091},
{58,45,21096},
{58,45,21104},
{58,45,21145},
{61,45,11564},
{61,45,13353},
{61,45,13813},
{61,45,14477},
{61,45,15452},
{61,45,16405},
{61,45,17496},
{61,45,17591},
{62,45,63},
{62,45,68},
{63,45,69},
{63,45,72},
{63,45,2137},
{63,45,2138},
{63,45,2150},
{63,45,2164},
{63,45,2165},
{63,45,2171},
{63,45,2172},
{63,45,2196},
{63,45,2197},
{63,45,2243},
{63,45,2244},
{63,45,2365},
{63,45,2380},
{63,45,2755},
{63,45,2762},
{63,45,3051},
{63,45,9002},
{63,45,11487},
{63,45,15113},
{63,45,15383},
{63,45,16309},
{63,45,17277},
{63,45,17709},
{63,45,17714},
{63,45,17986},
{63,45,18772},
{63,45,18779},
{63,45,18786},
{63,45,19725},
{78,40,77},
{80,40,77},
{83,40,77},
{84,35,85},
{84,35,86},
{84,35,87},
{84,40,61},
{85,35,2253},
{85,40,61},
{86,35,88},
{86,35,89},
{86,35,90},
{86,35,91},
{86,35,3048},
{86,40,61},
{87,40,61},
{88,35,58},
{88,40,61},
{89,35,62},
{89,40,61},
{90,35,24},
{90,35,92},
{90,35,93},
{90,40,61},
{91,35,31},
{91,40,61},
{92,40,75},
{93,40,75},
{97,45,99},
{97,45,100},
{129,45,131},
{316,45,319},
{316,45,322},
{316,45,325},
{316,45,938},
{589,45,592},
{589,45,595},
{589,45,598},
{589,45,601},
{719,45,725},
{2034,45,2036},
{2034,45,2039},
{2039,45,11945},
{2041,45,2052},
{2041,45,2130},
{2041,45,2132},
{2041,45,2311},
{2041,45,2738},
{2041,45,2782},
{2041,45,3035},
{2041,45,11436},
{2052,45,2058},
{2052,45,2090},
{2052,45,2099},
{2052,45,2127},
{2058,45,2059},
{2058,45,2069},
{2058,45,2080},
{2059,45,2060},
{2069,45,2071},
{2069,45,2075},
{2069,45,2078},
{2071,45,2748},
{2080,45,2082},
{2080,45,2085},
{2080,45,2086},
{2080,45,2087},
{2080,45,2088},
{2080,45,2089},
{2090,45,2091},
{2090,45,2093},
{2090,45,2095},
{2090,45,2097},
{2099,45,2100},
{2099,45,2104},
{2104,45,2999},
{2104,45,3006},
{2104,45,3012},
{2127,45,2315},
{2127,45,2790},
{2127,45,12561},
{2127,45,12620},
{2127,45,17641},
{2127,45,18011},
{2130,45,2131},
{2130,45,2787},
{2130,45,2788},
{2130,45,2789},
{2130,45,11446},
{2130,45,15535},
{2132,45,2133},
{2253,40,2004},
{2253,46,2254},
{2253,46,2255},
{2253,47,2256},
{2253,47,2268},
{2253,47,2274},
{2254,40,68},
{2255,40,68},
{2256,40,2138},
{2268,40,2013},
{2268,47,11192},
{2274,40,2020},
{2299,45,2771},
{2307,45,2309},
{2307,45,15109},
{2311,45,2378},
{2315,45,3806},
{2315,45,11856},
{2365,45,2372},
{2365,45,12021},
{2365,45,15318},
{2368,45,17570},
{2372,45,2373},
{2372,45,2376},
{2372,45,11238},
{2755,45,2760},
{2755,45,8995},
{2762,45,2767},
{2771,45,2391},
{2771,45,2929},
{2771,45,9318},
{2771,45,15803},
{2782,45,2830},
{2782,45,2881},
{2790,45,2803},
{2790,45,2829},
{2790,45,8927},
{2790,45,8944},
{2790,45,8961},
{2790,45,11093},
{2790,45,15013},
{2790,45,17225},
{2790,45,17242},
{2790,45,17259},
{2881,45,2915},
{2915,45,2955},
{2915,45,10523},
{2915,45,17080},
{2955,45,9341},
{2955,45,9906},
{3012,45,3014},
{3012,45,3019},
{3012,45,3022},
{3048,35,2041},
{3048,40,61},
{7594,45,102},
{9341,45,9482},
{9341,45,9623},
{9341,45,9764},
{9906,45,10060},
{9906,45,10214},
{9906,45,10368},
{10523,45,10637},
{10637,45,10751},
{10637,45,11753},
{10637,45,18347},
{10637,45,18496},
{11163,45,11164},
{11163,45,11165},
{11163,45,11166},
{11163,45,17218},
{11163,45,17219},
{11163,45,17220},
{11163,45,17221},
{11163,45,18665},
{11192,40,2330},
{11508,40,77},
{11510,40,77},
{11575,45,11595},
{11575,45,12522},
{11753,45,13225},
{12021,45,12029},
{12021,45,12038},
{12021,45,12047},
{12021,45,12057},
{12021,45,12068},
{12556,45,12557},
{12556,45,12558},
{12556,45,15181},
{12557,45,12559},
{12557,45,12560},
{12890,45,12891},
{14232,45,17725},
{14232,45,17999},
{14509,45,14534},
{14509,45,14572},
{14525,45,15005},
{14525,45,15487},
{14525,45,15488},
{15108,45,15111},
{15108,45,15127},
{15113,45,15128},
{15113,45,15317},
{15305,45,21138},
{15318,45,2368},
{15318,45,17497},
{15319,45,21142},
{15502,45,15510},
{15534,45,14523},
{15534,45,15006},
{15535,45,15548},
{15535,45,15563},
{15580,45,15581},
{15580,45,15582},
{15598,45,15669},
{15605,45,15652},
{15605,45,15664},
{15609,45,15480},
{15609,45,15520},
{15611,45,15532},
{15611,45,15667},
{15616,45,15645},
{15616,45,15657},
{15618,45,15007},
{15618,45,17467},
{15628,45,15670},
{15629,45,15653},
{15629,45,15665},
{15630,45,15631},
{15630,45,15635},
{15906,45,14416},
{17589,45,17598},
{17589,45,17600},
{17714,45,17716},
{17721,45,15064},
{17721,45,15155},
{17997,45,21133},
{17997,45,21136},
{17998,45,21105},
{17998,45,21126},
{18011,45,18029},
{18011,45,18047},
{18772,45,18774},
{18779,45,18781},
{18786,45,18791},
{18807,45,18808},
{18809,45,18810},
{18811,45,18812},
{18813,45,18814},
{19677,45,19732},
{19677,45,19786},
{19677,45,19834},
{19677,45,19903},
{19677,45,19968},
{19677,45,20027},
{21096,45,21111},
{21096,45,21128},
{21104,45,21116},
{21104,45,21130},
{21145,45,21147},
};
