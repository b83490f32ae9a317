#ifndef SHIM_UA_STATUSCODES_H
#define SHIM_UA_STATUSCODES_H
#define UA_STATUSCODE_GOOD 0x00000000U
#define UA_STATUSCODE_UNCERTAIN 0x40000000U
#define UA_STATUSCODE_BAD 0x80000000U
#define UA_STATUSCODE_BADUNEXPECTEDERROR 0x80010000U
#define UA_STATUSCODE_BADINTERNALERROR 0x80020000U
#define UA_STATUSCODE_BADOUTOFMEMORY 0x80030000U
#define UA_STATUSCODE_BADENCODINGERROR 0x80060000U
#define UA_STATUSCODE_BADDECODINGERROR 0x80070000U
#define UA_STATUSCODE_BADNODEIDINVALID 0x80330000U
#define UA_STATUSCODE_BADNODEIDUNKNOWN 0x80340000U
#define UA_STATUSCODE_BADATTRIBUTEIDINVALID 0x80350000U
#define UA_STATUSCODE_BADINVALIDARGUMENT 0x80AB0000U
#define UA_STATUSCODE_BADNOTFOUND 0x803E0000U
#define UA_STATUSCODE_BADNOTIMPLEMENTED 0x80400000U
#define UA_STATUSCODE_BADPARENTNODEIDINVALID 0x805B0000U
#define UA_STATUSCODE_BADREFERENCENOTALLOWED 0x805C0000U
#define UA_STATUSCODE_BADNODEIDEXISTS 0x805E0000U
#define UA_STATUSCODE_BADNODECLASSINVALID 0x805F0000U
#define UA_STATUSCODE_BADTYPEDEFINITIONINVALID 0x80630000U
#define UA_STATUSCODE_BADSOURCENODEIDINVALID 0x80640000U
#define UA_STATUSCODE_BADTARGETNODEIDINVALID 0x80650000U
#define UA_STATUSCODE_BADDUPLICATEREFERENCENOTALLOWED 0x80660000U
#define UA_STATUSCODE_BADREFERENCETYPEIDINVALID 0x804C0000U
#define UA_STATUSCODE_BADTYPEMISMATCH 0x80740000U
#define UA_STATUSCODE_BADCONTINUATIONPOINTINVALID 0x804A0000U
#define UA_STATUSCODE_BADNOTSUPPORTED 0x803D0000U
#define UA_STATUSCODE_BADOUTOFRANGE 0x803C0000U
#endif
