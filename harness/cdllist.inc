{"CDL2CROWS",&CR::r_CDL2CROWS},
{"CDL3BLACKCROWS",&CR::r_CDL3BLACKCROWS},
{"CDL3INSIDE",&CR::r_CDL3INSIDE},
{"CDL3LINESTRIKE",&CR::r_CDL3LINESTRIKE},
{"CDL3OUTSIDE",&CR::r_CDL3OUTSIDE},
{"CDL3STARSINSOUTH",&CR::r_CDL3STARSINSOUTH},
{"CDL3WHITESOLDIERS",&CR::r_CDL3WHITESOLDIERS},
{"CDLABANDONEDBABY",&CR::r_CDLABANDONEDBABY},
{"CDLADVANCEBLOCK",&CR::r_CDLADVANCEBLOCK},
{"CDLBELTHOLD",&CR::r_CDLBELTHOLD},
{"CDLBREAKAWAY",&CR::r_CDLBREAKAWAY},
{"CDLCLOSINGMARUBOZU",&CR::r_CDLCLOSINGMARUBOZU},
{"CDLCONCEALBABYSWALL",&CR::r_CDLCONCEALBABYSWALL},
{"CDLCOUNTERATTACK",&CR::r_CDLCOUNTERATTACK},
{"CDLDARKCLOUDCOVER",&CR::r_CDLDARKCLOUDCOVER},
{"CDLDOJI",&CR::r_CDLDOJI},
{"CDLDOJISTAR",&CR::r_CDLDOJISTAR},
{"CDLDRAGONFLYDOJI",&CR::r_CDLDRAGONFLYDOJI},
{"CDLENGULFING",&CR::r_CDLENGULFING},
{"CDLEVENINGDOJISTAR",&CR::r_CDLEVENINGDOJISTAR},
{"CDLEVENINGSTAR",&CR::r_CDLEVENINGSTAR},
{"CDLGAPSIDESIDEWHITE",&CR::r_CDLGAPSIDESIDEWHITE},
{"CDLGRAVESTONEDOJI",&CR::r_CDLGRAVESTONEDOJI},
{"CDLHAMMER",&CR::r_CDLHAMMER},
{"CDLHANGINGMAN",&CR::r_CDLHANGINGMAN},
{"CDLHARAMI",&CR::r_CDLHARAMI},
{"CDLHARAMICROSS",&CR::r_CDLHARAMICROSS},
{"CDLHIGHWAVE",&CR::r_CDLHIGHWAVE},
{"CDLHIKKAKE",&CR::r_CDLHIKKAKE},
{"CDLHIKKAKEMOD",&CR::r_CDLHIKKAKEMOD},
{"CDLHOMINGPIGEON",&CR::r_CDLHOMINGPIGEON},
{"CDLIDENTICAL3CROWS",&CR::r_CDLIDENTICAL3CROWS},
{"CDLINNECK",&CR::r_CDLINNECK},
{"CDLINVERTEDHAMMER",&CR::r_CDLINVERTEDHAMMER},
{"CDLKICKING",&CR::r_CDLKICKING},
{"CDLKICKINGBYLENGTH",&CR::r_CDLKICKINGBYLENGTH},
{"CDLLADDERBOTTOM",&CR::r_CDLLADDERBOTTOM},
{"CDLLONGLEGGEDDOJI",&CR::r_CDLLONGLEGGEDDOJI},
{"CDLLONGLINE",&CR::r_CDLLONGLINE},
{"CDLMARUBOZU",&CR::r_CDLMARUBOZU},
{"CDLMATCHINGLOW",&CR::r_CDLMATCHINGLOW},
{"CDLMATHOLD",&CR::r_CDLMATHOLD},
{"CDLMORNINGDOJISTAR",&CR::r_CDLMORNINGDOJISTAR},
{"CDLMORNINGSTAR",&CR::r_CDLMORNINGSTAR},
{"CDLONNECK",&CR::r_CDLONNECK},
{"CDLPIERCING",&CR::r_CDLPIERCING},
{"CDLRICKSHAWMAN",&CR::r_CDLRICKSHAWMAN},
{"CDLRISEFALL3METHODS",&CR::r_CDLRISEFALL3METHODS},
{"CDLSEPARATINGLINES",&CR::r_CDLSEPARATINGLINES},
{"CDLSHOOTINGSTAR",&CR::r_CDLSHOOTINGSTAR},
{"CDLSHORTLINE",&CR::r_CDLSHORTLINE},
{"CDLSPINNINGTOP",&CR::r_CDLSPINNINGTOP},
{"CDLSTALLEDPATTERN",&CR::r_CDLSTALLEDPATTERN},
{"CDLSTICKSANDWICH",&CR::r_CDLSTICKSANDWICH},
{"CDLTAKURI",&CR::r_CDLTAKURI},
{"CDLTASUKIGAP",&CR::r_CDLTASUKIGAP},
{"CDLTHRUSTING",&CR::r_CDLTHRUSTING},
{"CDLTRISTAR",&CR::r_CDLTRISTAR},
{"CDLUNIQUE3RIVER",&CR::r_CDLUNIQUE3RIVER},
{"CDLUPSIDEGAP2CROWS",&CR::r_CDLUPSIDEGAP2CROWS},
{"CDLXSIDEGAP3METHODS",&CR::r_CDLXSIDEGAP3METHODS},
