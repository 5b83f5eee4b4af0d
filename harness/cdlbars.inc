{"CDL2CROWS",2},
{"CDL3BLACKCROWS",3},
{"CDL3INSIDE",2},
{"CDL3LINESTRIKE",3},
{"CDL3OUTSIDE",3},
{"CDL3STARSINSOUTH",2},
{"CDL3WHITESOLDIERS",2},
{"CDLABANDONEDBABY",2},
{"CDLADVANCEBLOCK",2},
{"CDLBELTHOLD",0},
{"CDLBREAKAWAY",4},
{"CDLCLOSINGMARUBOZU",0},
{"CDLCONCEALBABYSWALL",3},
{"CDLCOUNTERATTACK",1},
{"CDLDARKCLOUDCOVER",1},
{"CDLDOJI",0},
{"CDLDOJISTAR",1},
{"CDLDRAGONFLYDOJI",0},
{"CDLENGULFING",2},
{"CDLEVENINGDOJISTAR",2},
{"CDLEVENINGSTAR",2},
{"CDLGAPSIDESIDEWHITE",2},
{"CDLGRAVESTONEDOJI",0},
{"CDLHAMMER",1},
{"CDLHANGINGMAN",1},
{"CDLHARAMI",1},
{"CDLHARAMICROSS",1},
{"CDLHIGHWAVE",0},
{"CDLHIKKAKE",5},
{"CDLHIKKAKEMOD",6},
{"CDLHOMINGPIGEON",1},
{"CDLIDENTICAL3CROWS",2},
{"CDLINNECK",1},
{"CDLINVERTEDHAMMER",1},
{"CDLKICKING",1},
{"CDLKICKINGBYLENGTH",1},
{"CDLLADDERBOTTOM",4},
{"CDLLONGLEGGEDDOJI",0},
{"CDLLONGLINE",0},
{"CDLMARUBOZU",0},
{"CDLMATCHINGLOW",1},
{"CDLMATHOLD",4},
{"CDLMORNINGDOJISTAR",2},
{"CDLMORNINGSTAR",2},
{"CDLONNECK",1},
{"CDLPIERCING",1},
{"CDLRICKSHAWMAN",0},
{"CDLRISEFALL3METHODS",4},
{"CDLSEPARATINGLINES",1},
{"CDLSHOOTINGSTAR",1},
{"CDLSHORTLINE",0},
{"CDLSPINNINGTOP",0},
{"CDLSTALLEDPATTERN",2},
{"CDLSTICKSANDWICH",2},
{"CDLTAKURI",0},
{"CDLTASUKIGAP",2},
{"CDLTHRUSTING",1},
{"CDLTRISTAR",2},
{"CDLUNIQUE3RIVER",2},
{"CDLUPSIDEGAP2CROWS",2},
{"CDLXSIDEGAP3METHODS",2},
