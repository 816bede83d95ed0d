SPECIFICATION GenSpec
CONSTANTS NS = 3 NV = 9 NT = 8 MaxMsgs = 12
Types = {"VX", "d", "i", "Vd", "Sd", "Si", "Su", "str", "V2", "V3", "V4", "V8", "F3", "Q", "M33", "M34", "M44", "M66", "M23", "M43", "P", "EP", "E2", "E3", "RV", "K",
 "LSi", "LSd", "LSu", "LP", "LV2", "LV3", "LEP", "LE2", "LE3", "LQ", "LM34"}
Formats = {"msgpack", "msgpackzone", "protomsgpack", "text", "binary", "prototext", "protobinary"}
CHECK_DEADLOCK FALSE
