// candle settings each pattern is documented to use (bit i = TA_CandleSettingType i)
static const struct { const char*n; int m; } CDEP[]={
{"CDL2CROWS",0x001},
{"CDL3BLACKCROWS",0x080},
{"CDL3INSIDE",0x005},
{"CDL3LINESTRIKE",0x100},
{"CDL3OUTSIDE",0x000},
{"CDL3STARSINSOUTH",0x095},
{"CDL3WHITESOLDIERS",0x384},
{"CDLABANDONEDBABY",0x00d},
{"CDLADVANCEBLOCK",0x351},
{"CDLBELTHOLD",0x081},
{"CDLBREAKAWAY",0x001},
{"CDLCLOSINGMARUBOZU",0x081},
{"CDLCONCEALBABYSWALL",0x080},
{"CDLCOUNTERATTACK",0x401},
{"CDLDARKCLOUDCOVER",0x001},
{"CDLDOJI",0x008},
{"CDLDOJISTAR",0x009},
{"CDLDRAGONFLYDOJI",0x088},
{"CDLENGULFING",0x000},
{"CDLEVENINGDOJISTAR",0x00d},
{"CDLEVENINGSTAR",0x005},
{"CDLGAPSIDESIDEWHITE",0x500},
{"CDLGRAVESTONEDOJI",0x088},
{"CDLHAMMER",0x194},
{"CDLHANGINGMAN",0x194},
{"CDLHARAMI",0x005},
{"CDLHARAMICROSS",0x009},
{"CDLHIGHWAVE",0x024},
{"CDLHIKKAKE",0x000},
{"CDLHIKKAKEMOD",0x100},
{"CDLHOMINGPIGEON",0x005},
{"CDLIDENTICAL3CROWS",0x480},
{"CDLINNECK",0x401},
{"CDLINVERTEDHAMMER",0x094},
{"CDLKICKING",0x081},
{"CDLKICKINGBYLENGTH",0x081},
{"CDLLADDERBOTTOM",0x080},
{"CDLLONGLEGGEDDOJI",0x018},
{"CDLLONGLINE",0x041},
{"CDLMARUBOZU",0x081},
{"CDLMATCHINGLOW",0x400},
{"CDLMATHOLD",0x005},
{"CDLMORNINGDOJISTAR",0x00d},
{"CDLMORNINGSTAR",0x005},
{"CDLONNECK",0x401},
{"CDLPIERCING",0x001},
{"CDLRICKSHAWMAN",0x118},
{"CDLRISEFALL3METHODS",0x005},
{"CDLSEPARATINGLINES",0x481},
{"CDLSHOOTINGSTAR",0x094},
{"CDLSHORTLINE",0x044},
{"CDLSPINNINGTOP",0x004},
{"CDLSTALLEDPATTERN",0x185},
{"CDLSTICKSANDWICH",0x400},
{"CDLTAKURI",0x0a8},
{"CDLTASUKIGAP",0x100},
{"CDLTHRUSTING",0x401},
{"CDLTRISTAR",0x008},
{"CDLUNIQUE3RIVER",0x005},
{"CDLUPSIDEGAP2CROWS",0x005},
{"CDLXSIDEGAP3METHODS",0x000},
};
