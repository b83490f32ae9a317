/* generated by tools/gen_shim_types.py */
static UA_DataTypeMember Argument_members[] = {
  {"Name", &UA_TYPES[UA_TYPES_STRING], (UA_Byte)(offsetof(UA_Argument, name)), 0, 0},
  {"DataType", &UA_TYPES[UA_TYPES_NODEID], (UA_Byte)(offsetof(UA_Argument, dataType) - (offsetof(UA_Argument, name) + sizeof(((UA_Argument*)0)->name))), 0, 0},
  {"ValueRank", &UA_TYPES[UA_TYPES_INT32], (UA_Byte)(offsetof(UA_Argument, valueRank) - (offsetof(UA_Argument, dataType) + sizeof(((UA_Argument*)0)->dataType))), 0, 0},
  {"ArrayDimensions", &UA_TYPES[UA_TYPES_UINT32], (UA_Byte)(offsetof(UA_Argument, arrayDimensionsSize) - (offsetof(UA_Argument, valueRank) + sizeof(((UA_Argument*)0)->valueRank))), 1, 0},
  {"Description", &UA_TYPES[UA_TYPES_LOCALIZEDTEXT], (UA_Byte)(offsetof(UA_Argument, description) - (offsetof(UA_Argument, arrayDimensions) + sizeof(((UA_Argument*)0)->arrayDimensions))), 0, 0},
};
static UA_DataTypeMember EUInformation_members[] = {
  {"NamespaceUri", &UA_TYPES[UA_TYPES_STRING], (UA_Byte)(offsetof(UA_EUInformation, namespaceUri)), 0, 0},
  {"UnitId", &UA_TYPES[UA_TYPES_INT32], (UA_Byte)(offsetof(UA_EUInformation, unitId) - (offsetof(UA_EUInformation, namespaceUri) + sizeof(((UA_EUInformation*)0)->namespaceUri))), 0, 0},
  {"DisplayName", &UA_TYPES[UA_TYPES_LOCALIZEDTEXT], (UA_Byte)(offsetof(UA_EUInformation, displayName) - (offsetof(UA_EUInformation, unitId) + sizeof(((UA_EUInformation*)0)->unitId))), 0, 0},
  {"Description", &UA_TYPES[UA_TYPES_LOCALIZEDTEXT], (UA_Byte)(offsetof(UA_EUInformation, description) - (offsetof(UA_EUInformation, displayName) + sizeof(((UA_EUInformation*)0)->displayName))), 0, 0},
};
static UA_DataTypeMember Range_members[] = {
  {"Low", &UA_TYPES[UA_TYPES_DOUBLE], (UA_Byte)(offsetof(UA_Range, low)), 0, 0},
  {"High", &UA_TYPES[UA_TYPES_DOUBLE], (UA_Byte)(offsetof(UA_Range, high) - (offsetof(UA_Range, low) + sizeof(((UA_Range*)0)->low))), 0, 0},
};
static UA_DataTypeMember EnumValueType_members[] = {
  {"Value", &UA_TYPES[UA_TYPES_INT64], (UA_Byte)(offsetof(UA_EnumValueType, value)), 0, 0},
  {"DisplayName", &UA_TYPES[UA_TYPES_LOCALIZEDTEXT], (UA_Byte)(offsetof(UA_EnumValueType, displayName) - (offsetof(UA_EnumValueType, value) + sizeof(((UA_EnumValueType*)0)->value))), 0, 0},
  {"Description", &UA_TYPES[UA_TYPES_LOCALIZEDTEXT], (UA_Byte)(offsetof(UA_EnumValueType, description) - (offsetof(UA_EnumValueType, displayName) + sizeof(((UA_EnumValueType*)0)->displayName))), 0, 0},
};
static UA_DataTypeMember TimeZoneDataType_members[] = {
  {"Offset", &UA_TYPES[UA_TYPES_INT16], (UA_Byte)(offsetof(UA_TimeZoneDataType, offset)), 0, 0},
  {"DaylightSavingInOffset", &UA_TYPES[UA_TYPES_BOOLEAN], (UA_Byte)(offsetof(UA_TimeZoneDataType, daylightSavingInOffset) - (offsetof(UA_TimeZoneDataType, offset) + sizeof(((UA_TimeZoneDataType*)0)->offset))), 0, 0},
};
static UA_DataTypeMember RolePermissionType_members[] = {
  {"RoleId", &UA_TYPES[UA_TYPES_NODEID], (UA_Byte)(offsetof(UA_RolePermissionType, roleId)), 0, 0},
  {"Permissions", &UA_TYPES[UA_TYPES_UINT32], (UA_Byte)(offsetof(UA_RolePermissionType, permissions) - (offsetof(UA_RolePermissionType, roleId) + sizeof(((UA_RolePermissionType*)0)->roleId))), 0, 0},
};
static UA_DataTypeMember XVType_members[] = {
  {"X", &UA_TYPES[UA_TYPES_DOUBLE], (UA_Byte)(offsetof(UA_XVType, x)), 0, 0},
  {"Value", &UA_TYPES[UA_TYPES_FLOAT], (UA_Byte)(offsetof(UA_XVType, value) - (offsetof(UA_XVType, x) + sizeof(((UA_XVType*)0)->x))), 0, 0},
};
static UA_DataTypeMember ComplexNumberType_members[] = {
  {"Real", &UA_TYPES[UA_TYPES_FLOAT], (UA_Byte)(offsetof(UA_ComplexNumberType, real)), 0, 0},
  {"Imaginary", &UA_TYPES[UA_TYPES_FLOAT], (UA_Byte)(offsetof(UA_ComplexNumberType, imaginary) - (offsetof(UA_ComplexNumberType, real) + sizeof(((UA_ComplexNumberType*)0)->real))), 0, 0},
};
static UA_DataTypeMember DoubleComplexNumberType_members[] = {
  {"Real", &UA_TYPES[UA_TYPES_DOUBLE], (UA_Byte)(offsetof(UA_DoubleComplexNumberType, real)), 0, 0},
  {"Imaginary", &UA_TYPES[UA_TYPES_DOUBLE], (UA_Byte)(offsetof(UA_DoubleComplexNumberType, imaginary) - (offsetof(UA_DoubleComplexNumberType, real) + sizeof(((UA_DoubleComplexNumberType*)0)->real))), 0, 0},
};
static UA_DataTypeMember AxisInformation_members[] = {
  {"EngineeringUnits", &UA_TYPES[UA_TYPES_EUINFORMATION], (UA_Byte)(offsetof(UA_AxisInformation, engineeringUnits)), 0, 0},
  {"EURange", &UA_TYPES[UA_TYPES_RANGE], (UA_Byte)(offsetof(UA_AxisInformation, eURange) - (offsetof(UA_AxisInformation, engineeringUnits) + sizeof(((UA_AxisInformation*)0)->engineeringUnits))), 0, 0},
  {"Title", &UA_TYPES[UA_TYPES_LOCALIZEDTEXT], (UA_Byte)(offsetof(UA_AxisInformation, title) - (offsetof(UA_AxisInformation, eURange) + sizeof(((UA_AxisInformation*)0)->eURange))), 0, 0},
  {"AxisScaleType", &UA_TYPES[UA_TYPES_AXISSCALEENUMERATION], (UA_Byte)(offsetof(UA_AxisInformation, axisScaleType) - (offsetof(UA_AxisInformation, title) + sizeof(((UA_AxisInformation*)0)->title))), 0, 0},
  {"AxisSteps", &UA_TYPES[UA_TYPES_DOUBLE], (UA_Byte)(offsetof(UA_AxisInformation, axisStepsSize) - (offsetof(UA_AxisInformation, axisScaleType) + sizeof(((UA_AxisInformation*)0)->axisScaleType))), 1, 0},
};
static UA_DataTypeMember BuildInfo_members[] = {
  {"ProductUri", &UA_TYPES[UA_TYPES_STRING], (UA_Byte)(offsetof(UA_BuildInfo, productUri)), 0, 0},
  {"ManufacturerName", &UA_TYPES[UA_TYPES_STRING], (UA_Byte)(offsetof(UA_BuildInfo, manufacturerName) - (offsetof(UA_BuildInfo, productUri) + sizeof(((UA_BuildInfo*)0)->productUri))), 0, 0},
  {"ProductName", &UA_TYPES[UA_TYPES_STRING], (UA_Byte)(offsetof(UA_BuildInfo, productName) - (offsetof(UA_BuildInfo, manufacturerName) + sizeof(((UA_BuildInfo*)0)->manufacturerName))), 0, 0},
  {"SoftwareVersion", &UA_TYPES[UA_TYPES_STRING], (UA_Byte)(offsetof(UA_BuildInfo, softwareVersion) - (offsetof(UA_BuildInfo, productName) + sizeof(((UA_BuildInfo*)0)->productName))), 0, 0},
  {"BuildNumber", &UA_TYPES[UA_TYPES_STRING], (UA_Byte)(offsetof(UA_BuildInfo, buildNumber) - (offsetof(UA_BuildInfo, softwareVersion) + sizeof(((UA_BuildInfo*)0)->softwareVersion))), 0, 0},
  {"BuildDate", &UA_TYPES[UA_TYPES_DATETIME], (UA_Byte)(offsetof(UA_BuildInfo, buildDate) - (offsetof(UA_BuildInfo, buildNumber) + sizeof(((UA_BuildInfo*)0)->buildNumber))), 0, 0},
};
static UA_DataTypeMember ServerStatusDataType_members[] = {
  {"StartTime", &UA_TYPES[UA_TYPES_DATETIME], (UA_Byte)(offsetof(UA_ServerStatusDataType, startTime)), 0, 0},
  {"CurrentTime", &UA_TYPES[UA_TYPES_DATETIME], (UA_Byte)(offsetof(UA_ServerStatusDataType, currentTime) - (offsetof(UA_ServerStatusDataType, startTime) + sizeof(((UA_ServerStatusDataType*)0)->startTime))), 0, 0},
  {"State", &UA_TYPES[UA_TYPES_SERVERSTATE], (UA_Byte)(offsetof(UA_ServerStatusDataType, state) - (offsetof(UA_ServerStatusDataType, currentTime) + sizeof(((UA_ServerStatusDataType*)0)->currentTime))), 0, 0},
  {"BuildInfo", &UA_TYPES[UA_TYPES_BUILDINFO], (UA_Byte)(offsetof(UA_ServerStatusDataType, buildInfo) - (offsetof(UA_ServerStatusDataType, state) + sizeof(((UA_ServerStatusDataType*)0)->state))), 0, 0},
  {"SecondsTillShutdown", &UA_TYPES[UA_TYPES_UINT32], (UA_Byte)(offsetof(UA_ServerStatusDataType, secondsTillShutdown) - (offsetof(UA_ServerStatusDataType, buildInfo) + sizeof(((UA_ServerStatusDataType*)0)->buildInfo))), 0, 0},
  {"ShutdownReason", &UA_TYPES[UA_TYPES_LOCALIZEDTEXT], (UA_Byte)(offsetof(UA_ServerStatusDataType, shutdownReason) - (offsetof(UA_ServerStatusDataType, secondsTillShutdown) + sizeof(((UA_ServerStatusDataType*)0)->secondsTillShutdown))), 0, 0},
};
static UA_DataTypeMember BrowseDescription_members[] = {
  {"NodeId", &UA_TYPES[UA_TYPES_NODEID], (UA_Byte)(offsetof(UA_BrowseDescription, nodeId)), 0, 0},
  {"BrowseDirection", &UA_TYPES[UA_TYPES_BROWSEDIRECTION], (UA_Byte)(offsetof(UA_BrowseDescription, browseDirection) - (offsetof(UA_BrowseDescription, nodeId) + sizeof(((UA_BrowseDescription*)0)->nodeId))), 0, 0},
  {"ReferenceTypeId", &UA_TYPES[UA_TYPES_NODEID], (UA_Byte)(offsetof(UA_BrowseDescription, referenceTypeId) - (offsetof(UA_BrowseDescription, browseDirection) + sizeof(((UA_BrowseDescription*)0)->browseDirection))), 0, 0},
  {"IncludeSubtypes", &UA_TYPES[UA_TYPES_BOOLEAN], (UA_Byte)(offsetof(UA_BrowseDescription, includeSubtypes) - (offsetof(UA_BrowseDescription, referenceTypeId) + sizeof(((UA_BrowseDescription*)0)->referenceTypeId))), 0, 0},
  {"NodeClassMask", &UA_TYPES[UA_TYPES_UINT32], (UA_Byte)(offsetof(UA_BrowseDescription, nodeClassMask) - (offsetof(UA_BrowseDescription, includeSubtypes) + sizeof(((UA_BrowseDescription*)0)->includeSubtypes))), 0, 0},
  {"ResultMask", &UA_TYPES[UA_TYPES_UINT32], (UA_Byte)(offsetof(UA_BrowseDescription, resultMask) - (offsetof(UA_BrowseDescription, nodeClassMask) + sizeof(((UA_BrowseDescription*)0)->nodeClassMask))), 0, 0},
};
static UA_DataTypeMember ReferenceDescription_members[] = {
  {"ReferenceTypeId", &UA_TYPES[UA_TYPES_NODEID], (UA_Byte)(offsetof(UA_ReferenceDescription, referenceTypeId)), 0, 0},
  {"IsForward", &UA_TYPES[UA_TYPES_BOOLEAN], (UA_Byte)(offsetof(UA_ReferenceDescription, isForward) - (offsetof(UA_ReferenceDescription, referenceTypeId) + sizeof(((UA_ReferenceDescription*)0)->referenceTypeId))), 0, 0},
  {"NodeId", &UA_TYPES[UA_TYPES_EXPANDEDNODEID], (UA_Byte)(offsetof(UA_ReferenceDescription, nodeId) - (offsetof(UA_ReferenceDescription, isForward) + sizeof(((UA_ReferenceDescription*)0)->isForward))), 0, 0},
  {"BrowseName", &UA_TYPES[UA_TYPES_QUALIFIEDNAME], (UA_Byte)(offsetof(UA_ReferenceDescription, browseName) - (offsetof(UA_ReferenceDescription, nodeId) + sizeof(((UA_ReferenceDescription*)0)->nodeId))), 0, 0},
  {"DisplayName", &UA_TYPES[UA_TYPES_LOCALIZEDTEXT], (UA_Byte)(offsetof(UA_ReferenceDescription, displayName) - (offsetof(UA_ReferenceDescription, browseName) + sizeof(((UA_ReferenceDescription*)0)->browseName))), 0, 0},
  {"NodeClass", &UA_TYPES[UA_TYPES_NODECLASS], (UA_Byte)(offsetof(UA_ReferenceDescription, nodeClass) - (offsetof(UA_ReferenceDescription, displayName) + sizeof(((UA_ReferenceDescription*)0)->displayName))), 0, 0},
  {"TypeDefinition", &UA_TYPES[UA_TYPES_EXPANDEDNODEID], (UA_Byte)(offsetof(UA_ReferenceDescription, typeDefinition) - (offsetof(UA_ReferenceDescription, nodeClass) + sizeof(((UA_ReferenceDescription*)0)->nodeClass))), 0, 0},
};
static UA_DataTypeMember BrowseResult_members[] = {
  {"StatusCode", &UA_TYPES[UA_TYPES_STATUSCODE], (UA_Byte)(offsetof(UA_BrowseResult, statusCode)), 0, 0},
  {"ContinuationPoint", &UA_TYPES[UA_TYPES_BYTESTRING], (UA_Byte)(offsetof(UA_BrowseResult, continuationPoint) - (offsetof(UA_BrowseResult, statusCode) + sizeof(((UA_BrowseResult*)0)->statusCode))), 0, 0},
  {"References", &UA_TYPES[UA_TYPES_REFERENCEDESCRIPTION], (UA_Byte)(offsetof(UA_BrowseResult, referencesSize) - (offsetof(UA_BrowseResult, continuationPoint) + sizeof(((UA_BrowseResult*)0)->continuationPoint))), 1, 0},
};
static UA_DataTypeMember ObjectAttributes_members[] = {
  {"SpecifiedAttributes", &UA_TYPES[UA_TYPES_UINT32], (UA_Byte)(offsetof(UA_ObjectAttributes, specifiedAttributes)), 0, 0},
  {"DisplayName", &UA_TYPES[UA_TYPES_LOCALIZEDTEXT], (UA_Byte)(offsetof(UA_ObjectAttributes, displayName) - (offsetof(UA_ObjectAttributes, specifiedAttributes) + sizeof(((UA_ObjectAttributes*)0)->specifiedAttributes))), 0, 0},
  {"Description", &UA_TYPES[UA_TYPES_LOCALIZEDTEXT], (UA_Byte)(offsetof(UA_ObjectAttributes, description) - (offsetof(UA_ObjectAttributes, displayName) + sizeof(((UA_ObjectAttributes*)0)->displayName))), 0, 0},
  {"WriteMask", &UA_TYPES[UA_TYPES_UINT32], (UA_Byte)(offsetof(UA_ObjectAttributes, writeMask) - (offsetof(UA_ObjectAttributes, description) + sizeof(((UA_ObjectAttributes*)0)->description))), 0, 0},
  {"UserWriteMask", &UA_TYPES[UA_TYPES_UINT32], (UA_Byte)(offsetof(UA_ObjectAttributes, userWriteMask) - (offsetof(UA_ObjectAttributes, writeMask) + sizeof(((UA_ObjectAttributes*)0)->writeMask))), 0, 0},
  {"EventNotifier", &UA_TYPES[UA_TYPES_BYTE], (UA_Byte)(offsetof(UA_ObjectAttributes, eventNotifier) - (offsetof(UA_ObjectAttributes, userWriteMask) + sizeof(((UA_ObjectAttributes*)0)->userWriteMask))), 0, 0},
};
static UA_DataTypeMember VariableAttributes_members[] = {
  {"SpecifiedAttributes", &UA_TYPES[UA_TYPES_UINT32], (UA_Byte)(offsetof(UA_VariableAttributes, specifiedAttributes)), 0, 0},
  {"DisplayName", &UA_TYPES[UA_TYPES_LOCALIZEDTEXT], (UA_Byte)(offsetof(UA_VariableAttributes, displayName) - (offsetof(UA_VariableAttributes, specifiedAttributes) + sizeof(((UA_VariableAttributes*)0)->specifiedAttributes))), 0, 0},
  {"Description", &UA_TYPES[UA_TYPES_LOCALIZEDTEXT], (UA_Byte)(offsetof(UA_VariableAttributes, description) - (offsetof(UA_VariableAttributes, displayName) + sizeof(((UA_VariableAttributes*)0)->displayName))), 0, 0},
  {"WriteMask", &UA_TYPES[UA_TYPES_UINT32], (UA_Byte)(offsetof(UA_VariableAttributes, writeMask) - (offsetof(UA_VariableAttributes, description) + sizeof(((UA_VariableAttributes*)0)->description))), 0, 0},
  {"UserWriteMask", &UA_TYPES[UA_TYPES_UINT32], (UA_Byte)(offsetof(UA_VariableAttributes, userWriteMask) - (offsetof(UA_VariableAttributes, writeMask) + sizeof(((UA_VariableAttributes*)0)->writeMask))), 0, 0},
  {"Value", &UA_TYPES[UA_TYPES_VARIANT], (UA_Byte)(offsetof(UA_VariableAttributes, value) - (offsetof(UA_VariableAttributes, userWriteMask) + sizeof(((UA_VariableAttributes*)0)->userWriteMask))), 0, 0},
  {"DataType", &UA_TYPES[UA_TYPES_NODEID], (UA_Byte)(offsetof(UA_VariableAttributes, dataType) - (offsetof(UA_VariableAttributes, value) + sizeof(((UA_VariableAttributes*)0)->value))), 0, 0},
  {"ValueRank", &UA_TYPES[UA_TYPES_INT32], (UA_Byte)(offsetof(UA_VariableAttributes, valueRank) - (offsetof(UA_VariableAttributes, dataType) + sizeof(((UA_VariableAttributes*)0)->dataType))), 0, 0},
  {"ArrayDimensions", &UA_TYPES[UA_TYPES_UINT32], (UA_Byte)(offsetof(UA_VariableAttributes, arrayDimensionsSize) - (offsetof(UA_VariableAttributes, valueRank) + sizeof(((UA_VariableAttributes*)0)->valueRank))), 1, 0},
  {"AccessLevel", &UA_TYPES[UA_TYPES_BYTE], (UA_Byte)(offsetof(UA_VariableAttributes, accessLevel) - (offsetof(UA_VariableAttributes, arrayDimensions) + sizeof(((UA_VariableAttributes*)0)->arrayDimensions))), 0, 0},
  {"UserAccessLevel", &UA_TYPES[UA_TYPES_BYTE], (UA_Byte)(offsetof(UA_VariableAttributes, userAccessLevel) - (offsetof(UA_VariableAttributes, accessLevel) + sizeof(((UA_VariableAttributes*)0)->accessLevel))), 0, 0},
  {"MinimumSamplingInterval", &UA_TYPES[UA_TYPES_DOUBLE], (UA_Byte)(offsetof(UA_VariableAttributes, minimumSamplingInterval) - (offsetof(UA_VariableAttributes, userAccessLevel) + sizeof(((UA_VariableAttributes*)0)->userAccessLevel))), 0, 0},
  {"Historizing", &UA_TYPES[UA_TYPES_BOOLEAN], (UA_Byte)(offsetof(UA_VariableAttributes, historizing) - (offsetof(UA_VariableAttributes, minimumSamplingInterval) + sizeof(((UA_VariableAttributes*)0)->minimumSamplingInterval))), 0, 0},
};
static UA_DataTypeMember MethodAttributes_members[] = {
  {"SpecifiedAttributes", &UA_TYPES[UA_TYPES_UINT32], (UA_Byte)(offsetof(UA_MethodAttributes, specifiedAttributes)), 0, 0},
  {"DisplayName", &UA_TYPES[UA_TYPES_LOCALIZEDTEXT], (UA_Byte)(offsetof(UA_MethodAttributes, displayName) - (offsetof(UA_MethodAttributes, specifiedAttributes) + sizeof(((UA_MethodAttributes*)0)->specifiedAttributes))), 0, 0},
  {"Description", &UA_TYPES[UA_TYPES_LOCALIZEDTEXT], (UA_Byte)(offsetof(UA_MethodAttributes, description) - (offsetof(UA_MethodAttributes, displayName) + sizeof(((UA_MethodAttributes*)0)->displayName))), 0, 0},
  {"WriteMask", &UA_TYPES[UA_TYPES_UINT32], (UA_Byte)(offsetof(UA_MethodAttributes, writeMask) - (offsetof(UA_MethodAttributes, description) + sizeof(((UA_MethodAttributes*)0)->description))), 0, 0},
  {"UserWriteMask", &UA_TYPES[UA_TYPES_UINT32], (UA_Byte)(offsetof(UA_MethodAttributes, userWriteMask) - (offsetof(UA_MethodAttributes, writeMask) + sizeof(((UA_MethodAttributes*)0)->writeMask))), 0, 0},
  {"Executable", &UA_TYPES[UA_TYPES_BOOLEAN], (UA_Byte)(offsetof(UA_MethodAttributes, executable) - (offsetof(UA_MethodAttributes, userWriteMask) + sizeof(((UA_MethodAttributes*)0)->userWriteMask))), 0, 0},
  {"UserExecutable", &UA_TYPES[UA_TYPES_BOOLEAN], (UA_Byte)(offsetof(UA_MethodAttributes, userExecutable) - (offsetof(UA_MethodAttributes, executable) + sizeof(((UA_MethodAttributes*)0)->executable))), 0, 0},
};
static UA_DataTypeMember ObjectTypeAttributes_members[] = {
  {"SpecifiedAttributes", &UA_TYPES[UA_TYPES_UINT32], (UA_Byte)(offsetof(UA_ObjectTypeAttributes, specifiedAttributes)), 0, 0},
  {"DisplayName", &UA_TYPES[UA_TYPES_LOCALIZEDTEXT], (UA_Byte)(offsetof(UA_ObjectTypeAttributes, displayName) - (offsetof(UA_ObjectTypeAttributes, specifiedAttributes) + sizeof(((UA_ObjectTypeAttributes*)0)->specifiedAttributes))), 0, 0},
  {"Description", &UA_TYPES[UA_TYPES_LOCALIZEDTEXT], (UA_Byte)(offsetof(UA_ObjectTypeAttributes, description) - (offsetof(UA_ObjectTypeAttributes, displayName) + sizeof(((UA_ObjectTypeAttributes*)0)->displayName))), 0, 0},
  {"WriteMask", &UA_TYPES[UA_TYPES_UINT32], (UA_Byte)(offsetof(UA_ObjectTypeAttributes, writeMask) - (offsetof(UA_ObjectTypeAttributes, description) + sizeof(((UA_ObjectTypeAttributes*)0)->description))), 0, 0},
  {"UserWriteMask", &UA_TYPES[UA_TYPES_UINT32], (UA_Byte)(offsetof(UA_ObjectTypeAttributes, userWriteMask) - (offsetof(UA_ObjectTypeAttributes, writeMask) + sizeof(((UA_ObjectTypeAttributes*)0)->writeMask))), 0, 0},
  {"IsAbstract", &UA_TYPES[UA_TYPES_BOOLEAN], (UA_Byte)(offsetof(UA_ObjectTypeAttributes, isAbstract) - (offsetof(UA_ObjectTypeAttributes, userWriteMask) + sizeof(((UA_ObjectTypeAttributes*)0)->userWriteMask))), 0, 0},
};
static UA_DataTypeMember VariableTypeAttributes_members[] = {
  {"SpecifiedAttributes", &UA_TYPES[UA_TYPES_UINT32], (UA_Byte)(offsetof(UA_VariableTypeAttributes, specifiedAttributes)), 0, 0},
  {"DisplayName", &UA_TYPES[UA_TYPES_LOCALIZEDTEXT], (UA_Byte)(offsetof(UA_VariableTypeAttributes, displayName) - (offsetof(UA_VariableTypeAttributes, specifiedAttributes) + sizeof(((UA_VariableTypeAttributes*)0)->specifiedAttributes))), 0, 0},
  {"Description", &UA_TYPES[UA_TYPES_LOCALIZEDTEXT], (UA_Byte)(offsetof(UA_VariableTypeAttributes, description) - (offsetof(UA_VariableTypeAttributes, displayName) + sizeof(((UA_VariableTypeAttributes*)0)->displayName))), 0, 0},
  {"WriteMask", &UA_TYPES[UA_TYPES_UINT32], (UA_Byte)(offsetof(UA_VariableTypeAttributes, writeMask) - (offsetof(UA_VariableTypeAttributes, description) + sizeof(((UA_VariableTypeAttributes*)0)->description))), 0, 0},
  {"UserWriteMask", &UA_TYPES[UA_TYPES_UINT32], (UA_Byte)(offsetof(UA_VariableTypeAttributes, userWriteMask) - (offsetof(UA_VariableTypeAttributes, writeMask) + sizeof(((UA_VariableTypeAttributes*)0)->writeMask))), 0, 0},
  {"Value", &UA_TYPES[UA_TYPES_VARIANT], (UA_Byte)(offsetof(UA_VariableTypeAttributes, value) - (offsetof(UA_VariableTypeAttributes, userWriteMask) + sizeof(((UA_VariableTypeAttributes*)0)->userWriteMask))), 0, 0},
  {"DataType", &UA_TYPES[UA_TYPES_NODEID], (UA_Byte)(offsetof(UA_VariableTypeAttributes, dataType) - (offsetof(UA_VariableTypeAttributes, value) + sizeof(((UA_VariableTypeAttributes*)0)->value))), 0, 0},
  {"ValueRank", &UA_TYPES[UA_TYPES_INT32], (UA_Byte)(offsetof(UA_VariableTypeAttributes, valueRank) - (offsetof(UA_VariableTypeAttributes, dataType) + sizeof(((UA_VariableTypeAttributes*)0)->dataType))), 0, 0},
  {"ArrayDimensions", &UA_TYPES[UA_TYPES_UINT32], (UA_Byte)(offsetof(UA_VariableTypeAttributes, arrayDimensionsSize) - (offsetof(UA_VariableTypeAttributes, valueRank) + sizeof(((UA_VariableTypeAttributes*)0)->valueRank))), 1, 0},
  {"IsAbstract", &UA_TYPES[UA_TYPES_BOOLEAN], (UA_Byte)(offsetof(UA_VariableTypeAttributes, isAbstract) - (offsetof(UA_VariableTypeAttributes, arrayDimensions) + sizeof(((UA_VariableTypeAttributes*)0)->arrayDimensions))), 0, 0},
};
static UA_DataTypeMember ReferenceTypeAttributes_members[] = {
  {"SpecifiedAttributes", &UA_TYPES[UA_TYPES_UINT32], (UA_Byte)(offsetof(UA_ReferenceTypeAttributes, specifiedAttributes)), 0, 0},
  {"DisplayName", &UA_TYPES[UA_TYPES_LOCALIZEDTEXT], (UA_Byte)(offsetof(UA_ReferenceTypeAttributes, displayName) - (offsetof(UA_ReferenceTypeAttributes, specifiedAttributes) + sizeof(((UA_ReferenceTypeAttributes*)0)->specifiedAttributes))), 0, 0},
  {"Description", &UA_TYPES[UA_TYPES_LOCALIZEDTEXT], (UA_Byte)(offsetof(UA_ReferenceTypeAttributes, description) - (offsetof(UA_ReferenceTypeAttributes, displayName) + sizeof(((UA_ReferenceTypeAttributes*)0)->displayName))), 0, 0},
  {"WriteMask", &UA_TYPES[UA_TYPES_UINT32], (UA_Byte)(offsetof(UA_ReferenceTypeAttributes, writeMask) - (offsetof(UA_ReferenceTypeAttributes, description) + sizeof(((UA_ReferenceTypeAttributes*)0)->description))), 0, 0},
  {"UserWriteMask", &UA_TYPES[UA_TYPES_UINT32], (UA_Byte)(offsetof(UA_ReferenceTypeAttributes, userWriteMask) - (offsetof(UA_ReferenceTypeAttributes, writeMask) + sizeof(((UA_ReferenceTypeAttributes*)0)->writeMask))), 0, 0},
  {"IsAbstract", &UA_TYPES[UA_TYPES_BOOLEAN], (UA_Byte)(offsetof(UA_ReferenceTypeAttributes, isAbstract) - (offsetof(UA_ReferenceTypeAttributes, userWriteMask) + sizeof(((UA_ReferenceTypeAttributes*)0)->userWriteMask))), 0, 0},
  {"Symmetric", &UA_TYPES[UA_TYPES_BOOLEAN], (UA_Byte)(offsetof(UA_ReferenceTypeAttributes, symmetric) - (offsetof(UA_ReferenceTypeAttributes, isAbstract) + sizeof(((UA_ReferenceTypeAttributes*)0)->isAbstract))), 0, 0},
  {"InverseName", &UA_TYPES[UA_TYPES_LOCALIZEDTEXT], (UA_Byte)(offsetof(UA_ReferenceTypeAttributes, inverseName) - (offsetof(UA_ReferenceTypeAttributes, symmetric) + sizeof(((UA_ReferenceTypeAttributes*)0)->symmetric))), 0, 0},
};
static UA_DataTypeMember DataTypeAttributes_members[] = {
  {"SpecifiedAttributes", &UA_TYPES[UA_TYPES_UINT32], (UA_Byte)(offsetof(UA_DataTypeAttributes, specifiedAttributes)), 0, 0},
  {"DisplayName", &UA_TYPES[UA_TYPES_LOCALIZEDTEXT], (UA_Byte)(offsetof(UA_DataTypeAttributes, displayName) - (offsetof(UA_DataTypeAttributes, specifiedAttributes) + sizeof(((UA_DataTypeAttributes*)0)->specifiedAttributes))), 0, 0},
  {"Description", &UA_TYPES[UA_TYPES_LOCALIZEDTEXT], (UA_Byte)(offsetof(UA_DataTypeAttributes, description) - (offsetof(UA_DataTypeAttributes, displayName) + sizeof(((UA_DataTypeAttributes*)0)->displayName))), 0, 0},
  {"WriteMask", &UA_TYPES[UA_TYPES_UINT32], (UA_Byte)(offsetof(UA_DataTypeAttributes, writeMask) - (offsetof(UA_DataTypeAttributes, description) + sizeof(((UA_DataTypeAttributes*)0)->description))), 0, 0},
  {"UserWriteMask", &UA_TYPES[UA_TYPES_UINT32], (UA_Byte)(offsetof(UA_DataTypeAttributes, userWriteMask) - (offsetof(UA_DataTypeAttributes, writeMask) + sizeof(((UA_DataTypeAttributes*)0)->writeMask))), 0, 0},
  {"IsAbstract", &UA_TYPES[UA_TYPES_BOOLEAN], (UA_Byte)(offsetof(UA_DataTypeAttributes, isAbstract) - (offsetof(UA_DataTypeAttributes, userWriteMask) + sizeof(((UA_DataTypeAttributes*)0)->userWriteMask))), 0, 0},
};
static UA_DataTypeMember ViewAttributes_members[] = {
  {"SpecifiedAttributes", &UA_TYPES[UA_TYPES_UINT32], (UA_Byte)(offsetof(UA_ViewAttributes, specifiedAttributes)), 0, 0},
  {"DisplayName", &UA_TYPES[UA_TYPES_LOCALIZEDTEXT], (UA_Byte)(offsetof(UA_ViewAttributes, displayName) - (offsetof(UA_ViewAttributes, specifiedAttributes) + sizeof(((UA_ViewAttributes*)0)->specifiedAttributes))), 0, 0},
  {"Description", &UA_TYPES[UA_TYPES_LOCALIZEDTEXT], (UA_Byte)(offsetof(UA_ViewAttributes, description) - (offsetof(UA_ViewAttributes, displayName) + sizeof(((UA_ViewAttributes*)0)->displayName))), 0, 0},
  {"WriteMask", &UA_TYPES[UA_TYPES_UINT32], (UA_Byte)(offsetof(UA_ViewAttributes, writeMask) - (offsetof(UA_ViewAttributes, description) + sizeof(((UA_ViewAttributes*)0)->description))), 0, 0},
  {"UserWriteMask", &UA_TYPES[UA_TYPES_UINT32], (UA_Byte)(offsetof(UA_ViewAttributes, userWriteMask) - (offsetof(UA_ViewAttributes, writeMask) + sizeof(((UA_ViewAttributes*)0)->writeMask))), 0, 0},
  {"ContainsNoLoops", &UA_TYPES[UA_TYPES_BOOLEAN], (UA_Byte)(offsetof(UA_ViewAttributes, containsNoLoops) - (offsetof(UA_ViewAttributes, userWriteMask) + sizeof(((UA_ViewAttributes*)0)->userWriteMask))), 0, 0},
  {"EventNotifier", &UA_TYPES[UA_TYPES_BYTE], (UA_Byte)(offsetof(UA_ViewAttributes, eventNotifier) - (offsetof(UA_ViewAttributes, containsNoLoops) + sizeof(((UA_ViewAttributes*)0)->containsNoLoops))), 0, 0},
};
UA_DataType UA_TYPES[UA_TYPES_COUNT] = {
{"Boolean",{0,UA_NODEIDTYPE_NUMERIC,{1}},{0,UA_NODEIDTYPE_NUMERIC,{0}},sizeof(UA_Boolean),0,1,1,0,NULL},
{"SByte",{0,UA_NODEIDTYPE_NUMERIC,{2}},{0,UA_NODEIDTYPE_NUMERIC,{0}},sizeof(UA_SByte),1,1,1,0,NULL},
{"Byte",{0,UA_NODEIDTYPE_NUMERIC,{3}},{0,UA_NODEIDTYPE_NUMERIC,{0}},sizeof(UA_Byte),2,1,1,0,NULL},
{"Int16",{0,UA_NODEIDTYPE_NUMERIC,{4}},{0,UA_NODEIDTYPE_NUMERIC,{0}},sizeof(UA_Int16),3,1,1,0,NULL},
{"UInt16",{0,UA_NODEIDTYPE_NUMERIC,{5}},{0,UA_NODEIDTYPE_NUMERIC,{0}},sizeof(UA_UInt16),4,1,1,0,NULL},
{"Int32",{0,UA_NODEIDTYPE_NUMERIC,{6}},{0,UA_NODEIDTYPE_NUMERIC,{0}},sizeof(UA_Int32),5,1,1,0,NULL},
{"UInt32",{0,UA_NODEIDTYPE_NUMERIC,{7}},{0,UA_NODEIDTYPE_NUMERIC,{0}},sizeof(UA_UInt32),6,1,1,0,NULL},
{"Int64",{0,UA_NODEIDTYPE_NUMERIC,{8}},{0,UA_NODEIDTYPE_NUMERIC,{0}},sizeof(UA_Int64),7,1,1,0,NULL},
{"UInt64",{0,UA_NODEIDTYPE_NUMERIC,{9}},{0,UA_NODEIDTYPE_NUMERIC,{0}},sizeof(UA_UInt64),8,1,1,0,NULL},
{"Float",{0,UA_NODEIDTYPE_NUMERIC,{10}},{0,UA_NODEIDTYPE_NUMERIC,{0}},sizeof(UA_Float),9,1,1,0,NULL},
{"Double",{0,UA_NODEIDTYPE_NUMERIC,{11}},{0,UA_NODEIDTYPE_NUMERIC,{0}},sizeof(UA_Double),10,1,1,0,NULL},
{"String",{0,UA_NODEIDTYPE_NUMERIC,{12}},{0,UA_NODEIDTYPE_NUMERIC,{0}},sizeof(UA_String),11,0,0,0,NULL},
{"DateTime",{0,UA_NODEIDTYPE_NUMERIC,{13}},{0,UA_NODEIDTYPE_NUMERIC,{0}},sizeof(UA_DateTime),12,1,1,0,NULL},
{"Guid",{0,UA_NODEIDTYPE_NUMERIC,{14}},{0,UA_NODEIDTYPE_NUMERIC,{0}},sizeof(UA_Guid),13,1,0,0,NULL},
{"ByteString",{0,UA_NODEIDTYPE_NUMERIC,{15}},{0,UA_NODEIDTYPE_NUMERIC,{0}},sizeof(UA_ByteString),14,0,0,0,NULL},
{"XmlElement",{0,UA_NODEIDTYPE_NUMERIC,{16}},{0,UA_NODEIDTYPE_NUMERIC,{0}},sizeof(UA_XmlElement),15,0,0,0,NULL},
{"NodeId",{0,UA_NODEIDTYPE_NUMERIC,{17}},{0,UA_NODEIDTYPE_NUMERIC,{0}},sizeof(UA_NodeId),16,0,0,0,NULL},
{"ExpandedNodeId",{0,UA_NODEIDTYPE_NUMERIC,{18}},{0,UA_NODEIDTYPE_NUMERIC,{0}},sizeof(UA_ExpandedNodeId),17,0,0,0,NULL},
{"StatusCode",{0,UA_NODEIDTYPE_NUMERIC,{19}},{0,UA_NODEIDTYPE_NUMERIC,{0}},sizeof(UA_StatusCode),18,1,1,0,NULL},
{"QualifiedName",{0,UA_NODEIDTYPE_NUMERIC,{20}},{0,UA_NODEIDTYPE_NUMERIC,{0}},sizeof(UA_QualifiedName),19,0,0,0,NULL},
{"LocalizedText",{0,UA_NODEIDTYPE_NUMERIC,{21}},{0,UA_NODEIDTYPE_NUMERIC,{0}},sizeof(UA_LocalizedText),20,0,0,0,NULL},
{"ExtensionObject",{0,UA_NODEIDTYPE_NUMERIC,{22}},{0,UA_NODEIDTYPE_NUMERIC,{0}},sizeof(UA_ExtensionObject),21,0,0,0,NULL},
{"DataValue",{0,UA_NODEIDTYPE_NUMERIC,{23}},{0,UA_NODEIDTYPE_NUMERIC,{0}},sizeof(UA_DataValue),22,0,0,0,NULL},
{"Variant",{0,UA_NODEIDTYPE_NUMERIC,{24}},{0,UA_NODEIDTYPE_NUMERIC,{0}},sizeof(UA_Variant),23,0,0,0,NULL},
{"DiagnosticInfo",{0,UA_NODEIDTYPE_NUMERIC,{25}},{0,UA_NODEIDTYPE_NUMERIC,{0}},sizeof(UA_DiagnosticInfo),24,0,0,0,NULL},
{"NodeClass",{0,UA_NODEIDTYPE_NUMERIC,{257}},{0,UA_NODEIDTYPE_NUMERIC,{0}},sizeof(UA_NodeClass),UA_DATATYPEKIND_ENUM,1,1,0,NULL},
{"ServerState",{0,UA_NODEIDTYPE_NUMERIC,{852}},{0,UA_NODEIDTYPE_NUMERIC,{0}},sizeof(UA_ServerState),UA_DATATYPEKIND_ENUM,1,1,0,NULL},
{"AxisScaleEnumeration",{0,UA_NODEIDTYPE_NUMERIC,{12077}},{0,UA_NODEIDTYPE_NUMERIC,{0}},sizeof(UA_AxisScaleEnumeration),UA_DATATYPEKIND_ENUM,1,1,0,NULL},
{"ApplicationType",{0,UA_NODEIDTYPE_NUMERIC,{307}},{0,UA_NODEIDTYPE_NUMERIC,{0}},sizeof(UA_ApplicationType),UA_DATATYPEKIND_ENUM,1,1,0,NULL},
{"BrowseDirection",{0,UA_NODEIDTYPE_NUMERIC,{510}},{0,UA_NODEIDTYPE_NUMERIC,{0}},sizeof(UA_BrowseDirection),UA_DATATYPEKIND_ENUM,1,1,0,NULL},
{"MessageSecurityMode",{0,UA_NODEIDTYPE_NUMERIC,{302}},{0,UA_NODEIDTYPE_NUMERIC,{0}},sizeof(UA_MessageSecurityMode),UA_DATATYPEKIND_ENUM,1,1,0,NULL},
{"StructureType",{0,UA_NODEIDTYPE_NUMERIC,{98}},{0,UA_NODEIDTYPE_NUMERIC,{0}},sizeof(UA_StructureType),UA_DATATYPEKIND_ENUM,1,1,0,NULL},
{"RedundancySupport",{0,UA_NODEIDTYPE_NUMERIC,{851}},{0,UA_NODEIDTYPE_NUMERIC,{0}},sizeof(UA_RedundancySupport),UA_DATATYPEKIND_ENUM,1,1,0,NULL},
{"Argument",{0,UA_NODEIDTYPE_NUMERIC,{296}},{0,UA_NODEIDTYPE_NUMERIC,{298}},sizeof(UA_Argument),UA_DATATYPEKIND_STRUCTURE,0,0,5,Argument_members},
{"EUInformation",{0,UA_NODEIDTYPE_NUMERIC,{887}},{0,UA_NODEIDTYPE_NUMERIC,{889}},sizeof(UA_EUInformation),UA_DATATYPEKIND_STRUCTURE,0,0,4,EUInformation_members},
{"Range",{0,UA_NODEIDTYPE_NUMERIC,{884}},{0,UA_NODEIDTYPE_NUMERIC,{886}},sizeof(UA_Range),UA_DATATYPEKIND_STRUCTURE,1,0,2,Range_members},
{"EnumValueType",{0,UA_NODEIDTYPE_NUMERIC,{7594}},{0,UA_NODEIDTYPE_NUMERIC,{8251}},sizeof(UA_EnumValueType),UA_DATATYPEKIND_STRUCTURE,0,0,3,EnumValueType_members},
{"TimeZoneDataType",{0,UA_NODEIDTYPE_NUMERIC,{8912}},{0,UA_NODEIDTYPE_NUMERIC,{8917}},sizeof(UA_TimeZoneDataType),UA_DATATYPEKIND_STRUCTURE,1,0,2,TimeZoneDataType_members},
{"RolePermissionType",{0,UA_NODEIDTYPE_NUMERIC,{96}},{0,UA_NODEIDTYPE_NUMERIC,{128}},sizeof(UA_RolePermissionType),UA_DATATYPEKIND_STRUCTURE,0,0,2,RolePermissionType_members},
{"XVType",{0,UA_NODEIDTYPE_NUMERIC,{12080}},{0,UA_NODEIDTYPE_NUMERIC,{12090}},sizeof(UA_XVType),UA_DATATYPEKIND_STRUCTURE,1,0,2,XVType_members},
{"ComplexNumberType",{0,UA_NODEIDTYPE_NUMERIC,{12171}},{0,UA_NODEIDTYPE_NUMERIC,{12181}},sizeof(UA_ComplexNumberType),UA_DATATYPEKIND_STRUCTURE,1,0,2,ComplexNumberType_members},
{"DoubleComplexNumberType",{0,UA_NODEIDTYPE_NUMERIC,{12172}},{0,UA_NODEIDTYPE_NUMERIC,{12182}},sizeof(UA_DoubleComplexNumberType),UA_DATATYPEKIND_STRUCTURE,1,0,2,DoubleComplexNumberType_members},
{"AxisInformation",{0,UA_NODEIDTYPE_NUMERIC,{12079}},{0,UA_NODEIDTYPE_NUMERIC,{12089}},sizeof(UA_AxisInformation),UA_DATATYPEKIND_STRUCTURE,0,0,5,AxisInformation_members},
{"BuildInfo",{0,UA_NODEIDTYPE_NUMERIC,{338}},{0,UA_NODEIDTYPE_NUMERIC,{340}},sizeof(UA_BuildInfo),UA_DATATYPEKIND_STRUCTURE,0,0,6,BuildInfo_members},
{"ServerStatusDataType",{0,UA_NODEIDTYPE_NUMERIC,{862}},{0,UA_NODEIDTYPE_NUMERIC,{864}},sizeof(UA_ServerStatusDataType),UA_DATATYPEKIND_STRUCTURE,0,0,6,ServerStatusDataType_members},
{"BrowseDescription",{0,UA_NODEIDTYPE_NUMERIC,{514}},{0,UA_NODEIDTYPE_NUMERIC,{516}},sizeof(UA_BrowseDescription),UA_DATATYPEKIND_STRUCTURE,0,0,6,BrowseDescription_members},
{"ReferenceDescription",{0,UA_NODEIDTYPE_NUMERIC,{518}},{0,UA_NODEIDTYPE_NUMERIC,{520}},sizeof(UA_ReferenceDescription),UA_DATATYPEKIND_STRUCTURE,0,0,7,ReferenceDescription_members},
{"BrowseResult",{0,UA_NODEIDTYPE_NUMERIC,{522}},{0,UA_NODEIDTYPE_NUMERIC,{524}},sizeof(UA_BrowseResult),UA_DATATYPEKIND_STRUCTURE,0,0,3,BrowseResult_members},
{"ObjectAttributes",{0,UA_NODEIDTYPE_NUMERIC,{352}},{0,UA_NODEIDTYPE_NUMERIC,{354}},sizeof(UA_ObjectAttributes),UA_DATATYPEKIND_STRUCTURE,0,0,6,ObjectAttributes_members},
{"VariableAttributes",{0,UA_NODEIDTYPE_NUMERIC,{355}},{0,UA_NODEIDTYPE_NUMERIC,{357}},sizeof(UA_VariableAttributes),UA_DATATYPEKIND_STRUCTURE,0,0,13,VariableAttributes_members},
{"MethodAttributes",{0,UA_NODEIDTYPE_NUMERIC,{358}},{0,UA_NODEIDTYPE_NUMERIC,{360}},sizeof(UA_MethodAttributes),UA_DATATYPEKIND_STRUCTURE,0,0,7,MethodAttributes_members},
{"ObjectTypeAttributes",{0,UA_NODEIDTYPE_NUMERIC,{361}},{0,UA_NODEIDTYPE_NUMERIC,{363}},sizeof(UA_ObjectTypeAttributes),UA_DATATYPEKIND_STRUCTURE,0,0,6,ObjectTypeAttributes_members},
{"VariableTypeAttributes",{0,UA_NODEIDTYPE_NUMERIC,{364}},{0,UA_NODEIDTYPE_NUMERIC,{366}},sizeof(UA_VariableTypeAttributes),UA_DATATYPEKIND_STRUCTURE,0,0,10,VariableTypeAttributes_members},
{"ReferenceTypeAttributes",{0,UA_NODEIDTYPE_NUMERIC,{367}},{0,UA_NODEIDTYPE_NUMERIC,{369}},sizeof(UA_ReferenceTypeAttributes),UA_DATATYPEKIND_STRUCTURE,0,0,8,ReferenceTypeAttributes_members},
{"DataTypeAttributes",{0,UA_NODEIDTYPE_NUMERIC,{370}},{0,UA_NODEIDTYPE_NUMERIC,{372}},sizeof(UA_DataTypeAttributes),UA_DATATYPEKIND_STRUCTURE,0,0,6,DataTypeAttributes_members},
{"ViewAttributes",{0,UA_NODEIDTYPE_NUMERIC,{373}},{0,UA_NODEIDTYPE_NUMERIC,{375}},sizeof(UA_ViewAttributes),UA_DATATYPEKIND_STRUCTURE,0,0,7,ViewAttributes_members},
};
