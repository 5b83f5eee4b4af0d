const char *TA_FunctionDescriptionXML(void){ return ""; }
