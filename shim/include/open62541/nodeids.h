#ifndef SHIM_UA_NODEIDS_H
#define SHIM_UA_NODEIDS_H
#define UA_NS0ID_BOOLEAN 1
#define UA_NS0ID_SBYTE 2
#define UA_NS0ID_BYTE 3
#define UA_NS0ID_INT16 4
#define UA_NS0ID_UINT16 5
#define UA_NS0ID_INT32 6
#define UA_NS0ID_UINT32 7
#define UA_NS0ID_INT64 8
#define UA_NS0ID_UINT64 9
#define UA_NS0ID_FLOAT 10
#define UA_NS0ID_DOUBLE 11
#define UA_NS0ID_STRING 12
#define UA_NS0ID_DATETIME 13
#define UA_NS0ID_GUID 14
#define UA_NS0ID_BYTESTRING 15
#define UA_NS0ID_XMLELEMENT 16
#define UA_NS0ID_NODEID 17
#define UA_NS0ID_EXPANDEDNODEID 18
#define UA_NS0ID_STATUSCODE 19
#define UA_NS0ID_QUALIFIEDNAME 20
#define UA_NS0ID_LOCALIZEDTEXT 21
#define UA_NS0ID_STRUCTURE 22
#define UA_NS0ID_DATAVALUE 23
#define UA_NS0ID_BASEDATATYPE 24
#define UA_NS0ID_DIAGNOSTICINFO 25
#define UA_NS0ID_NUMBER 26
#define UA_NS0ID_INTEGER 27
#define UA_NS0ID_UINTEGER 28
#define UA_NS0ID_ENUMERATION 29
#define UA_NS0ID_IMAGE 30
#define UA_NS0ID_REFERENCES 31
#define UA_NS0ID_NONHIERARCHICALREFERENCES 32
#define UA_NS0ID_HIERARCHICALREFERENCES 33
#define UA_NS0ID_HASCHILD 34
#define UA_NS0ID_ORGANIZES 35
#define UA_NS0ID_HASEVENTSOURCE 36
#define UA_NS0ID_HASMODELLINGRULE 37
#define UA_NS0ID_HASENCODING 38
#define UA_NS0ID_HASDESCRIPTION 39
#define UA_NS0ID_HASTYPEDEFINITION 40
#define UA_NS0ID_GENERATESEVENT 41
#define UA_NS0ID_AGGREGATES 44
#define UA_NS0ID_HASSUBTYPE 45
#define UA_NS0ID_HASPROPERTY 46
#define UA_NS0ID_HASCOMPONENT 47
#define UA_NS0ID_HASNOTIFIER 48
#define UA_NS0ID_HASORDEREDCOMPONENT 49
#define UA_NS0ID_DECIMAL 50
#define UA_NS0ID_FROMSTATE 51
#define UA_NS0ID_TOSTATE 52
#define UA_NS0ID_HASCAUSE 53
#define UA_NS0ID_HASEFFECT 54
#define UA_NS0ID_HASHISTORICALCONFIGURATION 56
#define UA_NS0ID_BASEOBJECTTYPE 58
#define UA_NS0ID_FOLDERTYPE 61
#define UA_NS0ID_BASEVARIABLETYPE 62
#define UA_NS0ID_BASEDATAVARIABLETYPE 63
#define UA_NS0ID_PROPERTYTYPE 68
#define UA_NS0ID_DATATYPEDESCRIPTIONTYPE 69
#define UA_NS0ID_DATATYPEDICTIONARYTYPE 72
#define UA_NS0ID_DATATYPESYSTEMTYPE 75
#define UA_NS0ID_DATATYPEENCODINGTYPE 76
#define UA_NS0ID_MODELLINGRULETYPE 77
#define UA_NS0ID_MANDATORY 78
#define UA_NS0ID_OPTIONAL 80
#define UA_NS0ID_EXPOSESITSARRAY 83
#define UA_NS0ID_ROOT 84
#define UA_NS0ID_OBJECTS 85
#define UA_NS0ID_TYPES 86
#define UA_NS0ID_VIEWS 87
#define UA_NS0ID_OBJECTTYPES 88
#define UA_NS0ID_VARIABLETYPES 89
#define UA_NS0ID_DATATYPES 90
#define UA_NS0ID_REFERENCETYPES 91
#define UA_NS0ID_XMLSCHEMA 92
#define UA_NS0ID_OPCBINARY 93
#define UA_NS0ID_PERMISSIONTYPE 94
#define UA_NS0ID_ACCESSRESTRICTIONTYPE 95
#define UA_NS0ID_ROLEPERMISSIONTYPE 96
#define UA_NS0ID_DATATYPEDEFINITION 97
#define UA_NS0ID_STRUCTURETYPE 98
#define UA_NS0ID_STRUCTUREDEFINITION 99
#define UA_NS0ID_ENUMDEFINITION 100
#define UA_NS0ID_STRUCTUREFIELD 101
#define UA_NS0ID_ENUMFIELD 102
#define UA_NS0ID_HASSUBSTATEMACHINE 117
#define UA_NS0ID_NAMINGRULETYPE 120
#define UA_NS0ID_HASARGUMENTDESCRIPTION 129
#define UA_NS0ID_HASOPTIONALINPUTARGUMENTDESCRIPTION 131
#define UA_NS0ID_IDTYPE 256
#define UA_NS0ID_NODECLASS 257
#define UA_NS0ID_INTEGERID 288
#define UA_NS0ID_COUNTER 289
#define UA_NS0ID_DURATION 290
#define UA_NS0ID_NUMERICRANGE 291
#define UA_NS0ID_TIME 292
#define UA_NS0ID_DATE 293
#define UA_NS0ID_UTCTIME 294
#define UA_NS0ID_LOCALEID 295
#define UA_NS0ID_ARGUMENT 296
#define UA_NS0ID_STATUSRESULT 299
#define UA_NS0ID_MESSAGESECURITYMODE 302
#define UA_NS0ID_USERTOKENTYPE 303
#define UA_NS0ID_USERTOKENPOLICY 304
#define UA_NS0ID_APPLICATIONTYPE 307
#define UA_NS0ID_APPLICATIONDESCRIPTION 308
#define UA_NS0ID_APPLICATIONINSTANCECERTIFICATE 311
#define UA_NS0ID_ENDPOINTDESCRIPTION 312
#define UA_NS0ID_SECURITYTOKENREQUESTTYPE 315
#define UA_NS0ID_USERIDENTITYTOKEN 316
#define UA_NS0ID_ANONYMOUSIDENTITYTOKEN 319
#define UA_NS0ID_USERNAMEIDENTITYTOKEN 322
#define UA_NS0ID_X509IDENTITYTOKEN 325
#define UA_NS0ID_ENDPOINTCONFIGURATION 331
#define UA_NS0ID_BUILDINFO 338
#define UA_NS0ID_SIGNEDSOFTWARECERTIFICATE 344
#define UA_NS0ID_ATTRIBUTEWRITEMASK 347
#define UA_NS0ID_NODEATTRIBUTESMASK 348
#define UA_NS0ID_ADDNODESITEM 376
#define UA_NS0ID_ADDREFERENCESITEM 379
#define UA_NS0ID_DELETENODESITEM 382
#define UA_NS0ID_DELETEREFERENCESITEM 385
#define UA_NS0ID_SESSIONAUTHENTICATIONTOKEN 388
#define UA_NS0ID_REGISTEREDSERVER 432
#define UA_NS0ID_CONTINUATIONPOINT 521
#define UA_NS0ID_RELATIVEPATHELEMENT 537
#define UA_NS0ID_RELATIVEPATH 540
#define UA_NS0ID_FILTEROPERATOR 576
#define UA_NS0ID_CONTENTFILTERELEMENT 583
#define UA_NS0ID_CONTENTFILTER 586
#define UA_NS0ID_FILTEROPERAND 589
#define UA_NS0ID_ELEMENTOPERAND 592
#define UA_NS0ID_LITERALOPERAND 595
#define UA_NS0ID_ATTRIBUTEOPERAND 598
#define UA_NS0ID_SIMPLEATTRIBUTEOPERAND 601
#define UA_NS0ID_HISTORYEVENT 659
#define UA_NS0ID_MONITORINGFILTER 719
#define UA_NS0ID_EVENTFILTER 725
#define UA_NS0ID_REDUNDANCYSUPPORT 851
#define UA_NS0ID_SERVERSTATE 852
#define UA_NS0ID_REDUNDANTSERVERDATATYPE 853
#define UA_NS0ID_SAMPLINGINTERVALDIAGNOSTICSDATATYPE 856
#define UA_NS0ID_SERVERDIAGNOSTICSSUMMARYDATATYPE 859
#define UA_NS0ID_SERVERSTATUSDATATYPE 862
#define UA_NS0ID_SESSIONDIAGNOSTICSDATATYPE 865
#define UA_NS0ID_SESSIONSECURITYDIAGNOSTICSDATATYPE 868
#define UA_NS0ID_SERVICECOUNTERDATATYPE 871
#define UA_NS0ID_SUBSCRIPTIONDIAGNOSTICSDATATYPE 874
#define UA_NS0ID_MODELCHANGESTRUCTUREDATATYPE 877
#define UA_NS0ID_RANGE 884
#define UA_NS0ID_EUINFORMATION 887
#define UA_NS0ID_EXCEPTIONDEVIATIONFORMAT 890
#define UA_NS0ID_ANNOTATION 891
#define UA_NS0ID_PROGRAMDIAGNOSTICDATATYPE 894
#define UA_NS0ID_SEMANTICCHANGESTRUCTUREDATATYPE 897
#define UA_NS0ID_HISTORYEVENTFIELDLIST 920
#define UA_NS0ID_ISSUEDIDENTITYTOKEN 938
#define UA_NS0ID_AGGREGATECONFIGURATION 948
#define UA_NS0ID_IMAGEBMP 2000
#define UA_NS0ID_IMAGEGIF 2001
#define UA_NS0ID_IMAGEJPG 2002
#define UA_NS0ID_IMAGEPNG 2003
#define UA_NS0ID_SERVERTYPE 2004
#define UA_NS0ID_SERVERCAPABILITIESTYPE 2013
#define UA_NS0ID_SERVERDIAGNOSTICSTYPE 2020
#define UA_NS0ID_SESSIONSDIAGNOSTICSSUMMARYTYPE 2026
#define UA_NS0ID_SESSIONDIAGNOSTICSOBJECTTYPE 2029
#define UA_NS0ID_VENDORSERVERINFOTYPE 2033
#define UA_NS0ID_SERVERREDUNDANCYTYPE 2034
#define UA_NS0ID_TRANSPARENTREDUNDANCYTYPE 2036
#define UA_NS0ID_NONTRANSPARENTREDUNDANCYTYPE 2039
#define UA_NS0ID_BASEEVENTTYPE 2041
#define UA_NS0ID_AUDITEVENTTYPE 2052
#define UA_NS0ID_AUDITSECURITYEVENTTYPE 2058
#define UA_NS0ID_AUDITCHANNELEVENTTYPE 2059
#define UA_NS0ID_AUDITOPENSECURECHANNELEVENTTYPE 2060
#define UA_NS0ID_AUDITSESSIONEVENTTYPE 2069
#define UA_NS0ID_AUDITCREATESESSIONEVENTTYPE 2071
#define UA_NS0ID_AUDITACTIVATESESSIONEVENTTYPE 2075
#define UA_NS0ID_AUDITCANCELEVENTTYPE 2078
#define UA_NS0ID_AUDITCERTIFICATEEVENTTYPE 2080
#define UA_NS0ID_AUDITCERTIFICATEDATAMISMATCHEVENTTYPE 2082
#define UA_NS0ID_AUDITCERTIFICATEEXPIREDEVENTTYPE 2085
#define UA_NS0ID_AUDITCERTIFICATEINVALIDEVENTTYPE 2086
#define UA_NS0ID_AUDITCERTIFICATEUNTRUSTEDEVENTTYPE 2087
#define UA_NS0ID_AUDITCERTIFICATEREVOKEDEVENTTYPE 2088
#define UA_NS0ID_AUDITCERTIFICATEMISMATCHEVENTTYPE 2089
#define UA_NS0ID_AUDITNODEMANAGEMENTEVENTTYPE 2090
#define UA_NS0ID_AUDITADDNODESEVENTTYPE 2091
#define UA_NS0ID_AUDITDELETENODESEVENTTYPE 2093
#define UA_NS0ID_AUDITADDREFERENCESEVENTTYPE 2095
#define UA_NS0ID_AUDITDELETEREFERENCESEVENTTYPE 2097
#define UA_NS0ID_AUDITUPDATEEVENTTYPE 2099
#define UA_NS0ID_AUDITWRITEUPDATEEVENTTYPE 2100
#define UA_NS0ID_AUDITHISTORYUPDATEEVENTTYPE 2104
#define UA_NS0ID_AUDITUPDATEMETHODEVENTTYPE 2127
#define UA_NS0ID_SYSTEMEVENTTYPE 2130
#define UA_NS0ID_DEVICEFAILUREEVENTTYPE 2131
#define UA_NS0ID_BASEMODELCHANGEEVENTTYPE 2132
#define UA_NS0ID_GENERALMODELCHANGEEVENTTYPE 2133
#define UA_NS0ID_SERVERVENDORCAPABILITYTYPE 2137
#define UA_NS0ID_SERVERSTATUSTYPE 2138
#define UA_NS0ID_SERVERDIAGNOSTICSSUMMARYTYPE 2150
#define UA_NS0ID_SAMPLINGINTERVALDIAGNOSTICSARRAYTYPE 2164
#define UA_NS0ID_SAMPLINGINTERVALDIAGNOSTICSTYPE 2165
#define UA_NS0ID_SUBSCRIPTIONDIAGNOSTICSARRAYTYPE 2171
#define UA_NS0ID_SUBSCRIPTIONDIAGNOSTICSTYPE 2172
#define UA_NS0ID_SESSIONDIAGNOSTICSARRAYTYPE 2196
#define UA_NS0ID_SESSIONDIAGNOSTICSVARIABLETYPE 2197
#define UA_NS0ID_SESSIONSECURITYDIAGNOSTICSARRAYTYPE 2243
#define UA_NS0ID_SESSIONSECURITYDIAGNOSTICSTYPE 2244
#define UA_NS0ID_SERVER 2253
#define UA_NS0ID_SERVERARRAY 2254
#define UA_NS0ID_NAMESPACEARRAY 2255
#define UA_NS0ID_SERVERSTATUS 2256
#define UA_NS0ID_SERVERCAPABILITIES 2268
#define UA_NS0ID_SERVERDIAGNOSTICS 2274
#define UA_NS0ID_STATEMACHINETYPE 2299
#define UA_NS0ID_STATETYPE 2307
#define UA_NS0ID_INITIALSTATETYPE 2309
#define UA_NS0ID_TRANSITIONTYPE 2310
#define UA_NS0ID_TRANSITIONEVENTTYPE 2311
#define UA_NS0ID_AUDITUPDATESTATEEVENTTYPE 2315
#define UA_NS0ID_HISTORICALDATACONFIGURATIONTYPE 2318
#define UA_NS0ID_HISTORYSERVERCAPABILITIESTYPE 2330
#define UA_NS0ID_AGGREGATEFUNCTIONTYPE 2340
#define UA_NS0ID_DATAITEMTYPE 2365
#define UA_NS0ID_ANALOGITEMTYPE 2368
#define UA_NS0ID_DISCRETEITEMTYPE 2372
#define UA_NS0ID_TWOSTATEDISCRETETYPE 2373
#define UA_NS0ID_MULTISTATEDISCRETETYPE 2376
#define UA_NS0ID_PROGRAMTRANSITIONEVENTTYPE 2378
#define UA_NS0ID_PROGRAMDIAGNOSTICTYPE 2380
#define UA_NS0ID_PROGRAMSTATEMACHINETYPE 2391
#define UA_NS0ID_SEMANTICCHANGEEVENTTYPE 2738
#define UA_NS0ID_AUDITURLMISMATCHEVENTTYPE 2748
#define UA_NS0ID_STATEVARIABLETYPE 2755
#define UA_NS0ID_FINITESTATEVARIABLETYPE 2760
#define UA_NS0ID_TRANSITIONVARIABLETYPE 2762
#define UA_NS0ID_FINITETRANSITIONVARIABLETYPE 2767
#define UA_NS0ID_FINITESTATEMACHINETYPE 2771
#define UA_NS0ID_CONDITIONTYPE 2782
#define UA_NS0ID_REFRESHSTARTEVENTTYPE 2787
#define UA_NS0ID_REFRESHENDEVENTTYPE 2788
#define UA_NS0ID_REFRESHREQUIREDEVENTTYPE 2789
#define UA_NS0ID_AUDITCONDITIONEVENTTYPE 2790
#define UA_NS0ID_AUDITCONDITIONENABLEEVENTTYPE 2803
#define UA_NS0ID_AUDITCONDITIONCOMMENTEVENTTYPE 2829
#define UA_NS0ID_DIALOGCONDITIONTYPE 2830
#define UA_NS0ID_ACKNOWLEDGEABLECONDITIONTYPE 2881
#define UA_NS0ID_ALARMCONDITIONTYPE 2915
#define UA_NS0ID_SHELVEDSTATEMACHINETYPE 2929
#define UA_NS0ID_LIMITALARMTYPE 2955
#define UA_NS0ID_AUDITHISTORYEVENTUPDATEEVENTTYPE 2999
#define UA_NS0ID_AUDITHISTORYVALUEUPDATEEVENTTYPE 3006
#define UA_NS0ID_AUDITHISTORYDELETEEVENTTYPE 3012
#define UA_NS0ID_AUDITHISTORYRAWMODIFYDELETEEVENTTYPE 3014
#define UA_NS0ID_AUDITHISTORYATTIMEDELETEEVENTTYPE 3019
#define UA_NS0ID_AUDITHISTORYEVENTDELETEEVENTTYPE 3022
#define UA_NS0ID_EVENTQUEUEOVERFLOWEVENTTYPE 3035
#define UA_NS0ID_EVENTTYPES 3048
#define UA_NS0ID_BUILDINFOTYPE 3051
#define UA_NS0ID_ALWAYSGENERATESEVENT 3065
#define UA_NS0ID_PROGRAMTRANSITIONAUDITEVENTTYPE 3806
#define UA_NS0ID_ENUMVALUETYPE 7594
#define UA_NS0ID_TIMEZONEDATATYPE 8912
#define UA_NS0ID_AUDITCONDITIONRESPONDEVENTTYPE 8927
#define UA_NS0ID_AUDITCONDITIONACKNOWLEDGEEVENTTYPE 8944
#define UA_NS0ID_AUDITCONDITIONCONFIRMEVENTTYPE 8961
#define UA_NS0ID_TWOSTATEVARIABLETYPE 8995
#define UA_NS0ID_CONDITIONVARIABLETYPE 9002
#define UA_NS0ID_HASTRUESUBSTATE 9004
#define UA_NS0ID_HASFALSESUBSTATE 9005
#define UA_NS0ID_HASCONDITION 9006
#define UA_NS0ID_EXCLUSIVELIMITSTATEMACHINETYPE 9318
#define UA_NS0ID_EXCLUSIVELIMITALARMTYPE 9341
#define UA_NS0ID_EXCLUSIVELEVELALARMTYPE 9482
#define UA_NS0ID_EXCLUSIVERATEOFCHANGEALARMTYPE 9623
#define UA_NS0ID_EXCLUSIVEDEVIATIONALARMTYPE 9764
#define UA_NS0ID_NONEXCLUSIVELIMITALARMTYPE 9906
#define UA_NS0ID_NONEXCLUSIVELEVELALARMTYPE 10060
#define UA_NS0ID_NONEXCLUSIVERATEOFCHANGEALARMTYPE 10214
#define UA_NS0ID_NONEXCLUSIVEDEVIATIONALARMTYPE 10368
#define UA_NS0ID_DISCRETEALARMTYPE 10523
#define UA_NS0ID_OFFNORMALALARMTYPE 10637
#define UA_NS0ID_TRIPALARMTYPE 10751
#define UA_NS0ID_AUDITCONDITIONSHELVINGEVENTTYPE 11093
#define UA_NS0ID_BASECONDITIONCLASSTYPE 11163
#define UA_NS0ID_PROCESSCONDITIONCLASSTYPE 11164
#define UA_NS0ID_MAINTENANCECONDITIONCLASSTYPE 11165
#define UA_NS0ID_SYSTEMCONDITIONCLASSTYPE 11166
#define UA_NS0ID_AGGREGATECONFIGURATIONTYPE 11187
#define UA_NS0ID_HISTORYSERVERCAPABILITIES 11192
#define UA_NS0ID_HISTORYUPDATETYPE 11234
#define UA_NS0ID_MULTISTATEVALUEDISCRETETYPE 11238
#define UA_NS0ID_PERFORMUPDATETYPE 11293
#define UA_NS0ID_PROGRESSEVENTTYPE 11436
#define UA_NS0ID_SYSTEMSTATUSCHANGEEVENTTYPE 11446
#define UA_NS0ID_OPTIONSETTYPE 11487
#define UA_NS0ID_OPTIONALPLACEHOLDER 11508
#define UA_NS0ID_MANDATORYPLACEHOLDER 11510
#define UA_NS0ID_OPERATIONLIMITSTYPE 11564
#define UA_NS0ID_FILETYPE 11575
#define UA_NS0ID_ADDRESSSPACEFILETYPE 11595
#define UA_NS0ID_NAMESPACEMETADATATYPE 11616
#define UA_NS0ID_NAMESPACESTYPE 11645
#define UA_NS0ID_BITFIELDMASKDATATYPE 11737
#define UA_NS0ID_SYSTEMOFFNORMALALARMTYPE 11753
#define UA_NS0ID_AUDITPROGRAMTRANSITIONEVENTTYPE 11856
#define UA_NS0ID_OPENFILEMODE 11939
#define UA_NS0ID_ENDPOINTURLLISTDATATYPE 11943
#define UA_NS0ID_NETWORKGROUPDATATYPE 11944
#define UA_NS0ID_NONTRANSPARENTNETWORKREDUNDANCYTYPE 11945
#define UA_NS0ID_ARRAYITEMTYPE 12021
#define UA_NS0ID_YARRAYITEMTYPE 12029
#define UA_NS0ID_XYARRAYITEMTYPE 12038
#define UA_NS0ID_IMAGEITEMTYPE 12047
#define UA_NS0ID_CUBEITEMTYPE 12057
#define UA_NS0ID_NDIMENSIONARRAYITEMTYPE 12068
#define UA_NS0ID_AXISSCALEENUMERATION 12077
#define UA_NS0ID_AXISINFORMATION 12079
#define UA_NS0ID_XVTYPE 12080
#define UA_NS0ID_COMPLEXNUMBERTYPE 12171
#define UA_NS0ID_DOUBLECOMPLEXNUMBERTYPE 12172
#define UA_NS0ID_SERVERONNETWORK 12189
#define UA_NS0ID_TRUSTLISTTYPE 12522
#define UA_NS0ID_TRUSTLISTMASKS 12552
#define UA_NS0ID_TRUSTLISTDATATYPE 12554
#define UA_NS0ID_CERTIFICATEGROUPTYPE 12555
#define UA_NS0ID_CERTIFICATETYPE 12556
#define UA_NS0ID_APPLICATIONCERTIFICATETYPE 12557
#define UA_NS0ID_HTTPSCERTIFICATETYPE 12558
#define UA_NS0ID_RSAMINAPPLICATIONCERTIFICATETYPE 12559
#define UA_NS0ID_RSASHA256APPLICATIONCERTIFICATETYPE 12560
#define UA_NS0ID_TRUSTLISTUPDATEDAUDITEVENTTYPE 12561
#define UA_NS0ID_SERVERCONFIGURATIONTYPE 12581
#define UA_NS0ID_CERTIFICATEUPDATEDAUDITEVENTTYPE 12620
#define UA_NS0ID_OPTIONSET 12755
#define UA_NS0ID_UNION 12756
#define UA_NS0ID_NORMALIZEDSTRING 12877
#define UA_NS0ID_DECIMALSTRING 12878
#define UA_NS0ID_DURATIONSTRING 12879
#define UA_NS0ID_TIMESTRING 12880
#define UA_NS0ID_DATESTRING 12881
#define UA_NS0ID_DISCOVERYCONFIGURATION 12890
#define UA_NS0ID_MDNSDISCOVERYCONFIGURATION 12891
#define UA_NS0ID_CERTIFICATEEXPIRATIONALARMTYPE 13225
#define UA_NS0ID_FILEDIRECTORYTYPE 13353
#define UA_NS0ID_CERTIFICATEGROUPFOLDERTYPE 13813
#define UA_NS0ID_PUBSUBCONNECTIONTYPE 14209
#define UA_NS0ID_PUBSUBGROUPTYPE 14232
#define UA_NS0ID_PUBLISHEDVARIABLEDATATYPE 14273
#define UA_NS0ID_PUBLISHSUBSCRIBETYPE 14416
#define UA_NS0ID_HASPUBSUBCONNECTION 14476
#define UA_NS0ID_DATASETFOLDERTYPE 14477
#define UA_NS0ID_PUBLISHEDDATASETTYPE 14509
#define UA_NS0ID_DATASETMETADATATYPE 14523
#define UA_NS0ID_FIELDMETADATA 14524
#define UA_NS0ID_DATATYPEDESCRIPTION 14525
#define UA_NS0ID_KEYVALUEPAIR 14533
#define UA_NS0ID_PUBLISHEDDATAITEMSTYPE 14534
#define UA_NS0ID_PUBLISHEDEVENTSTYPE 14572
#define UA_NS0ID_CONFIGURATIONVERSIONDATATYPE 14593
#define UA_NS0ID_PUBSUBSTATUSTYPE 14643
#define UA_NS0ID_PUBSUBSTATE 14647
#define UA_NS0ID_FIELDTARGETDATATYPE 14744
#define UA_NS0ID_DATASETTOWRITER 14936
#define UA_NS0ID_SIMPLETYPEDESCRIPTION 15005
#define UA_NS0ID_UABINARYFILEDATATYPE 15006
#define UA_NS0ID_BROKERCONNECTIONTRANSPORTDATATYPE 15007
#define UA_NS0ID_BROKERTRANSPORTQUALITYOFSERVICE 15008
#define UA_NS0ID_AUDITCONDITIONRESETEVENTTYPE 15013
#define UA_NS0ID_ACCESSLEVELTYPE 15031
#define UA_NS0ID_EVENTNOTIFIERTYPE 15033
#define UA_NS0ID_DATAGRAMCONNECTIONTRANSPORTTYPE 15064
#define UA_NS0ID_SUBSCRIBEDDATASETTYPE 15108
#define UA_NS0ID_CHOICESTATETYPE 15109
#define UA_NS0ID_TARGETVARIABLESTYPE 15111
#define UA_NS0ID_HASGUARD 15112
#define UA_NS0ID_GUARDVARIABLETYPE 15113
#define UA_NS0ID_SUBSCRIBEDDATASETMIRRORTYPE 15127
#define UA_NS0ID_EXPRESSIONGUARDVARIABLETYPE 15128
#define UA_NS0ID_BROKERCONNECTIONTRANSPORTTYPE 15155
#define UA_NS0ID_USERCREDENTIALCERTIFICATETYPE 15181
#define UA_NS0ID_HASDATASETWRITER 15296
#define UA_NS0ID_HASDATASETREADER 15297
#define UA_NS0ID_DATASETWRITERTYPE 15298
#define UA_NS0ID_DATASETWRITERTRANSPORTTYPE 15305
#define UA_NS0ID_DATASETREADERTYPE 15306
#define UA_NS0ID_ELSEGUARDVARIABLETYPE 15317
#define UA_NS0ID_BASEANALOGTYPE 15318
#define UA_NS0ID_DATASETREADERTRANSPORTTYPE 15319
#define UA_NS0ID_PROGRAMDIAGNOSTIC2TYPE 15383
#define UA_NS0ID_PROGRAMDIAGNOSTIC2DATATYPE 15396
#define UA_NS0ID_ACCESSLEVELEXTYPE 15406
#define UA_NS0ID_SECURITYGROUPFOLDERTYPE 15452
#define UA_NS0ID_SECURITYGROUPTYPE 15471
#define UA_NS0ID_WRITERGROUPDATATYPE 15480
#define UA_NS0ID_STRUCTUREDESCRIPTION 15487
#define UA_NS0ID_ENUMDESCRIPTION 15488
#define UA_NS0ID_EXTENSIONFIELDSTYPE 15489
#define UA_NS0ID_NETWORKADDRESSDATATYPE 15502
#define UA_NS0ID_NETWORKADDRESSURLDATATYPE 15510
#define UA_NS0ID_READERGROUPDATATYPE 15520
#define UA_NS0ID_ENDPOINTTYPE 15528
#define UA_NS0ID_PUBSUBCONFIGURATIONDATATYPE 15530
#define UA_NS0ID_DATAGRAMWRITERGROUPTRANSPORTDATATYPE 15532
#define UA_NS0ID_DATATYPESCHEMAHEADER 15534
#define UA_NS0ID_PUBSUBSTATUSEVENTTYPE 15535
#define UA_NS0ID_PUBSUBTRANSPORTLIMITSEXCEEDEVENTTYPE 15548
#define UA_NS0ID_PUBSUBCOMMUNICATIONFAILUREEVENTTYPE 15563
#define UA_NS0ID_PUBLISHEDDATASETDATATYPE 15578
#define UA_NS0ID_PUBLISHEDDATASETSOURCEDATATYPE 15580
#define UA_NS0ID_PUBLISHEDDATAITEMSDATATYPE 15581
#define UA_NS0ID_PUBLISHEDEVENTSDATATYPE 15582
#define UA_NS0ID_DATASETFIELDCONTENTMASK 15583
#define UA_NS0ID_DATASETWRITERDATATYPE 15597
#define UA_NS0ID_DATASETWRITERTRANSPORTDATATYPE 15598
#define UA_NS0ID_DATASETWRITERMESSAGEDATATYPE 15605
#define UA_NS0ID_ROLESETTYPE 15607
#define UA_NS0ID_PUBSUBGROUPDATATYPE 15609
#define UA_NS0ID_WRITERGROUPTRANSPORTDATATYPE 15611
#define UA_NS0ID_WRITERGROUPMESSAGEDATATYPE 15616
#define UA_NS0ID_PUBSUBCONNECTIONDATATYPE 15617
#define UA_NS0ID_CONNECTIONTRANSPORTDATATYPE 15618
#define UA_NS0ID_ROLETYPE 15620
#define UA_NS0ID_READERGROUPTRANSPORTDATATYPE 15621
#define UA_NS0ID_READERGROUPMESSAGEDATATYPE 15622
#define UA_NS0ID_DATASETREADERDATATYPE 15623
#define UA_NS0ID_DATASETREADERTRANSPORTDATATYPE 15628
#define UA_NS0ID_DATASETREADERMESSAGEDATATYPE 15629
#define UA_NS0ID_SUBSCRIBEDDATASETDATATYPE 15630
#define UA_NS0ID_TARGETVARIABLESDATATYPE 15631
#define UA_NS0ID_IDENTITYCRITERIATYPE 15632
#define UA_NS0ID_IDENTITYMAPPINGRULETYPE 15634
#define UA_NS0ID_SUBSCRIBEDDATASETMIRRORDATATYPE 15635
#define UA_NS0ID_UADPNETWORKMESSAGECONTENTMASK 15642
#define UA_NS0ID_UADPWRITERGROUPMESSAGEDATATYPE 15645
#define UA_NS0ID_UADPDATASETMESSAGECONTENTMASK 15646
#define UA_NS0ID_UADPDATASETWRITERMESSAGEDATATYPE 15652
#define UA_NS0ID_UADPDATASETREADERMESSAGEDATATYPE 15653
#define UA_NS0ID_JSONNETWORKMESSAGECONTENTMASK 15654
#define UA_NS0ID_JSONWRITERGROUPMESSAGEDATATYPE 15657
#define UA_NS0ID_JSONDATASETMESSAGECONTENTMASK 15658
#define UA_NS0ID_JSONDATASETWRITERMESSAGEDATATYPE 15664
#define UA_NS0ID_JSONDATASETREADERMESSAGEDATATYPE 15665
#define UA_NS0ID_BROKERWRITERGROUPTRANSPORTDATATYPE 15667
#define UA_NS0ID_BROKERDATASETWRITERTRANSPORTDATATYPE 15669
#define UA_NS0ID_BROKERDATASETREADERTRANSPORTDATATYPE 15670
#define UA_NS0ID_TEMPORARYFILETRANSFERTYPE 15744
#define UA_NS0ID_FILETRANSFERSTATEMACHINETYPE 15803
#define UA_NS0ID_OVERRIDEVALUEHANDLING 15874
#define UA_NS0ID_DATASETFIELDFLAGS 15904
#define UA_NS0ID_PUBSUBKEYSERVICETYPE 15906
#define UA_NS0ID_AUDIODATATYPE 16307
#define UA_NS0ID_SELECTIONLISTTYPE 16309
#define UA_NS0ID_ADDITIONALPARAMETERSTYPE 16313
#define UA_NS0ID_HASALARMSUPPRESSIONGROUP 16361
#define UA_NS0ID_ALARMGROUPMEMBER 16362
#define UA_NS0ID_ALARMGROUPTYPE 16405
#define UA_NS0ID_DISCREPANCYALARMTYPE 17080
#define UA_NS0ID_SAFETYCONDITIONCLASSTYPE 17218
#define UA_NS0ID_HIGHLYMANAGEDALARMCONDITIONCLASSTYPE 17219
#define UA_NS0ID_TRAININGCONDITIONCLASSTYPE 17220
#define UA_NS0ID_TESTINGCONDITIONSUBCLASSTYPE 17221
#define UA_NS0ID_AUDITCONDITIONSUPPRESSIONEVENTTYPE 17225
#define UA_NS0ID_AUDITCONDITIONSILENCEEVENTTYPE 17242
#define UA_NS0ID_AUDITCONDITIONOUTOFSERVICEEVENTTYPE 17259
#define UA_NS0ID_HASEFFECTDISABLE 17276
#define UA_NS0ID_ALARMRATEVARIABLETYPE 17277
#define UA_NS0ID_ALARMMETRICSTYPE 17279
#define UA_NS0ID_DATAGRAMCONNECTIONTRANSPORTDATATYPE 17467
#define UA_NS0ID_KEYCREDENTIALCONFIGURATIONFOLDERTYPE 17496
#define UA_NS0ID_ANALOGUNITTYPE 17497
#define UA_NS0ID_EPHEMERALKEYTYPE 17548
#define UA_NS0ID_ANALOGUNITRANGETYPE 17570
#define UA_NS0ID_INDEX 17588
#define UA_NS0ID_DICTIONARYENTRYTYPE 17589
#define UA_NS0ID_DICTIONARYFOLDERTYPE 17591
#define UA_NS0ID_HASDICTIONARYENTRY 17597
#define UA_NS0ID_IRDIDICTIONARYENTRYTYPE 17598
#define UA_NS0ID_URIDICTIONARYENTRYTYPE 17600
#define UA_NS0ID_BASEINTERFACETYPE 17602
#define UA_NS0ID_HASINTERFACE 17603
#define UA_NS0ID_HASADDIN 17604
#define UA_NS0ID_ROLEMAPPINGRULECHANGEDAUDITEVENTTYPE 17641
#define UA_NS0ID_RATIONALNUMBERTYPE 17709
#define UA_NS0ID_VECTORTYPE 17714
#define UA_NS0ID_3DVECTORTYPE 17716
#define UA_NS0ID_CONNECTIONTRANSPORTTYPE 17721
#define UA_NS0ID_WRITERGROUPTYPE 17725
#define UA_NS0ID_AUTHORIZATIONSERVICECONFIGURATIONTYPE 17852
#define UA_NS0ID_HASEFFECTENABLE 17983
#define UA_NS0ID_HASEFFECTSUPPRESSED 17984
#define UA_NS0ID_HASEFFECTUNSUPPRESSED 17985
#define UA_NS0ID_AUDIOVARIABLETYPE 17986
#define UA_NS0ID_WRITERGROUPTRANSPORTTYPE 17997
#define UA_NS0ID_WRITERGROUPMESSAGETYPE 17998
#define UA_NS0ID_READERGROUPTYPE 17999
#define UA_NS0ID_KEYCREDENTIALCONFIGURATIONTYPE 18001
#define UA_NS0ID_KEYCREDENTIALAUDITEVENTTYPE 18011
#define UA_NS0ID_KEYCREDENTIALUPDATEDAUDITEVENTTYPE 18029
#define UA_NS0ID_KEYCREDENTIALDELETEDAUDITEVENTTYPE 18047
#define UA_NS0ID_INSTRUMENTDIAGNOSTICALARMTYPE 18347
#define UA_NS0ID_SYSTEMDIAGNOSTICALARMTYPE 18496
#define UA_NS0ID_STATISTICALCONDITIONCLASSTYPE 18665
#define UA_NS0ID_CARTESIANCOORDINATESTYPE 18772
#define UA_NS0ID_3DCARTESIANCOORDINATESTYPE 18774
#define UA_NS0ID_ORIENTATIONTYPE 18779
#define UA_NS0ID_3DORIENTATIONTYPE 18781
#define UA_NS0ID_FRAMETYPE 18786
#define UA_NS0ID_3DFRAMETYPE 18791
#define UA_NS0ID_RATIONALNUMBER 18806
#define UA_NS0ID_VECTOR 18807
#define UA_NS0ID_3DVECTOR 18808
#define UA_NS0ID_CARTESIANCOORDINATES 18809
#define UA_NS0ID_3DCARTESIANCOORDINATES 18810
#define UA_NS0ID_ORIENTATION 18811
#define UA_NS0ID_3DORIENTATION 18812
#define UA_NS0ID_FRAME 18813
#define UA_NS0ID_3DFRAME 18814
#define UA_NS0ID_PUBSUBDIAGNOSTICSTYPE 19677
#define UA_NS0ID_DIAGNOSTICSLEVEL 19723
#define UA_NS0ID_PUBSUBDIAGNOSTICSCOUNTERTYPE 19725
#define UA_NS0ID_PUBSUBDIAGNOSTICSCOUNTERCLASSIFICATION 19730
#define UA_NS0ID_PUBSUBDIAGNOSTICSROOTTYPE 19732
#define UA_NS0ID_PUBSUBDIAGNOSTICSCONNECTIONTYPE 19786
#define UA_NS0ID_PUBSUBDIAGNOSTICSWRITERGROUPTYPE 19834
#define UA_NS0ID_PUBSUBDIAGNOSTICSREADERGROUPTYPE 19903
#define UA_NS0ID_PUBSUBDIAGNOSTICSDATASETWRITERTYPE 19968
#define UA_NS0ID_PUBSUBDIAGNOSTICSDATASETREADERTYPE 20027
#define UA_NS0ID_DATASETORDERINGTYPE 20408
#define UA_NS0ID_VERSIONTIME 20998
#define UA_NS0ID_READERGROUPTRANSPORTTYPE 21090
#define UA_NS0ID_READERGROUPMESSAGETYPE 21091
#define UA_NS0ID_DATASETWRITERMESSAGETYPE 21096
#define UA_NS0ID_DATASETREADERMESSAGETYPE 21104
#define UA_NS0ID_UADPWRITERGROUPMESSAGETYPE 21105
#define UA_NS0ID_UADPDATASETWRITERMESSAGETYPE 21111
#define UA_NS0ID_UADPDATASETREADERMESSAGETYPE 21116
#define UA_NS0ID_JSONWRITERGROUPMESSAGETYPE 21126
#define UA_NS0ID_JSONDATASETWRITERMESSAGETYPE 21128
#define UA_NS0ID_JSONDATASETREADERMESSAGETYPE 21130
#define UA_NS0ID_DATAGRAMWRITERGROUPTRANSPORTTYPE 21133
#define UA_NS0ID_BROKERWRITERGROUPTRANSPORTTYPE 21136
#define UA_NS0ID_BROKERDATASETWRITERTRANSPORTTYPE 21138
#define UA_NS0ID_BROKERDATASETREADERTRANSPORTTYPE 21142
#define UA_NS0ID_NETWORKADDRESSTYPE 21145
#define UA_NS0ID_NETWORKADDRESSURLTYPE 21147
#define UA_NS0ID_OBJECTSFOLDER 85
#define UA_NS0ID_TYPESFOLDER 86
#define UA_NS0ID_VIEWSFOLDER 87
#define UA_NS0ID_ROOTFOLDER 84
#define UA_NS0ID_SERVER_NAMESPACEARRAY 2255
#endif
