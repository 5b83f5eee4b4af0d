// The published conditions of the 61 patterns, taken once from the documented source of the pinned commit and
// reviewed against the comment above each (the averages are computed naively, see c13.cpp). Frozen: not derived from the tree under test.
int r_CDL2CROWS(int i)const{ if( COL(i-2) == 1 && BODY(i-2) > AVG(BodyLong,i-2) && COL(i-1) == -1 && GAPUP(i-1,i-2) && COL(i) == -1 && O(i) < O(i-1) && O(i) > C(i-1) && C(i) > O(i-2) && C(i) < C(i-2) ) return -100; else return 0; return 0; }
int r_CDL3BLACKCROWS(int i)const{ if( COL(i-3) == 1 && COL(i-2) == -1 && LSH(i-2) < AVG(ShadowVeryShort,i-2) && COL(i-1) == -1 && LSH(i-1) < AVG(ShadowVeryShort,i-1) && COL(i) == -1 && LSH(i) < AVG(ShadowVeryShort,i) && O(i-1) < O(i-2) && O(i-1) > C(i-2) && O(i) < O(i-1) && O(i) > C(i-1) && H(i-3) > C(i-2) && C(i-2) > C(i-1) && C(i-1) > C(i) ) return -100; else return 0; return 0; }
int r_CDL3INSIDE(int i)const{ if( BODY(i-2) > AVG(BodyLong,i-2) && BODY(i-1) <= AVG(BodyShort,i-1) && max( C(i-1), O(i-1) ) < max( C(i-2), O(i-2) ) && min( C(i-1), O(i-1) ) > min( C(i-2), O(i-2) ) && ( ( COL(i-2) == 1 && COL(i) == -1 && C(i) < O(i-2) ) || ( COL(i-2) == -1 && COL(i) == 1 && C(i) > O(i-2) ) ) ) return -COL(i-2) * 100; else return 0; return 0; }
int r_CDL3LINESTRIKE(int i)const{ if( COL(i-3) == COL(i-2) && COL(i-2) == COL(i-1) && COL(i) == -COL(i-1) && O(i-2) >= min( O(i-3), C(i-3) ) - AVG(Near,i-3) && O(i-2) <= max( O(i-3), C(i-3) ) + AVG(Near,i-3) && O(i-1) >= min( O(i-2), C(i-2) ) - AVG(Near,i-2) && O(i-1) <= max( O(i-2), C(i-2) ) + AVG(Near,i-2) && ( ( COL(i-1) == 1 && C(i-1) > C(i-2) && C(i-2) > C(i-3) && O(i) > C(i-1) && C(i) < O(i-3) ) || ( COL(i-1) == -1 && C(i-1) < C(i-2) && C(i-2) < C(i-3) && O(i) < C(i-1) && C(i) > O(i-3) ) ) ) return COL(i-1) * 100; else return 0; return 0; }
int r_CDL3OUTSIDE(int i)const{ if( ( COL(i-1) == 1 && COL(i-2) == -1 && C(i-1) > O(i-2) && O(i-1) < C(i-2) && C(i) > C(i-1) ) || ( COL(i-1) == -1 && COL(i-2) == 1 && O(i-1) > C(i-2) && C(i-1) < O(i-2) && C(i) < C(i-1) ) ) { return COL(i-1) * 100; } else return 0; return 0; }
int r_CDL3STARSINSOUTH(int i)const{ if( COL(i-2) == -1 && COL(i-1) == -1 && COL(i) == -1 && BODY(i-2) > AVG(BodyLong,i-2) && LSH(i-2) > AVG(ShadowLong,i-2) && BODY(i-1) < BODY(i-2) && O(i-1) > C(i-2) && O(i-1) <= H(i-2) && L(i-1) < C(i-2) && L(i-1) >= L(i-2) && LSH(i-1) > AVG(ShadowVeryShort,i-1) && BODY(i) < AVG(BodyShort,i) && LSH(i) < AVG(ShadowVeryShort,i) && USH(i) < AVG(ShadowVeryShort,i) && L(i) > L(i-1) && H(i) < H(i-1) ) return 100; else return 0; return 0; }
int r_CDL3WHITESOLDIERS(int i)const{ if( COL(i-2) == 1 && USH(i-2) < AVG(ShadowVeryShort,i-2) && COL(i-1) == 1 && USH(i-1) < AVG(ShadowVeryShort,i-1) && COL(i) == 1 && USH(i) < AVG(ShadowVeryShort,i) && C(i) > C(i-1) && C(i-1) > C(i-2) && O(i-1) > O(i-2) && O(i-1) <= C(i-2) + AVG(Near,i-2) && O(i) > O(i-1) && O(i) <= C(i-1) + AVG(Near,i-1) && BODY(i-1) > BODY(i-2) - AVG(Far,i-2) && BODY(i) > BODY(i-1) - AVG(Far,i-1) && BODY(i) > AVG(BodyShort,i) ) return 100; else return 0; return 0; }
int r_CDLABANDONEDBABY(int i)const{ if( BODY(i-2) > AVG(BodyLong,i-2) && BODY(i-1) <= AVG(BodyDoji,i-1) && BODY(i) > AVG(BodyShort,i) && ( ( COL(i-2) == 1 && COL(i) == -1 && C(i) < C(i-2) - BODY(i-2) * pen && CGAPUP(i-1,i-2) && CGAPDOWN(i,i-1) ) || ( COL(i-2) == -1 && COL(i) == 1 && C(i) > C(i-2) + BODY(i-2) * pen && CGAPDOWN(i-1,i-2) && CGAPUP(i,i-1) ) ) ) { return COL(i) * 100; } else { return 0;} return 0; }
int r_CDLADVANCEBLOCK(int i)const{ if( COL(i-2) == 1 && COL(i-1) == 1 && COL(i) == 1 && C(i) > C(i-1) && C(i-1) > C(i-2) && O(i-1) > O(i-2) && O(i-1) <= C(i-2) + AVG(Near,i-2) && O(i) > O(i-1) && O(i) <= C(i-1) + AVG(Near,i-1) && BODY(i-2) > AVG(BodyLong,i-2) && USH(i-2) < AVG(ShadowShort,i-2) && ( ( BODY(i-1) < BODY(i-2) - AVG(Far,i-2) && BODY(i) < BODY(i-1) + AVG(Near,i-1) ) || ( BODY(i) < BODY(i-1) - AVG(Far,i-1) ) || ( BODY(i) < BODY(i-1) && BODY(i-1) < BODY(i-2) && ( USH(i) > AVG(ShadowShort,i) || USH(i-1) > AVG(ShadowShort,i-1) ) ) || ( BODY(i) < BODY(i-1) && USH(i) > AVG(ShadowLong,i) ) ) ) return -100; else return 0; return 0; }
int r_CDLBELTHOLD(int i)const{ if( BODY(i) > AVG(BodyLong,i) && ( ( COL(i) == 1 && LSH(i) < AVG(ShadowVeryShort,i) ) || ( COL(i) == -1 && USH(i) < AVG(ShadowVeryShort,i) ) ) ) return COL(i) * 100; else return 0; return 0; }
int r_CDLBREAKAWAY(int i)const{ if( BODY(i-4) > AVG(BodyLong,i-4) && COL(i-4) == COL(i-3) && COL(i-3) == COL(i-1) && COL(i-1) == -COL(i) && ( ( COL(i-4) == -1 && GAPDOWN(i-3,i-4) && H(i-2) < H(i-3) && L(i-2) < L(i-3) && H(i-1) < H(i-2) && L(i-1) < L(i-2) && C(i) > O(i-3) && C(i) < C(i-4) ) || ( COL(i-4) == 1 && GAPUP(i-3,i-4) && H(i-2) > H(i-3) && L(i-2) > L(i-3) && H(i-1) > H(i-2) && L(i-1) > L(i-2) && C(i) < O(i-3) && C(i) > C(i-4) ) ) ) return COL(i) * 100; else return 0; return 0; }
int r_CDLCLOSINGMARUBOZU(int i)const{ if( BODY(i) > AVG(BodyLong,i) && ( ( COL(i) == 1 && USH(i) < AVG(ShadowVeryShort,i) ) || ( COL(i) == -1 && LSH(i) < AVG(ShadowVeryShort,i) ) ) ) return COL(i) * 100; else return 0; return 0; }
int r_CDLCONCEALBABYSWALL(int i)const{ if( COL(i-3) == -1 && COL(i-2) == -1 && COL(i-1) == -1 && COL(i) == -1 && LSH(i-3) < AVG(ShadowVeryShort,i-3) && USH(i-3) < AVG(ShadowVeryShort,i-3) && LSH(i-2) < AVG(ShadowVeryShort,i-2) && USH(i-2) < AVG(ShadowVeryShort,i-2) && GAPDOWN(i-1,i-2) && USH(i-1) > AVG(ShadowVeryShort,i-1) && H(i-1) > C(i-2) && H(i) > H(i-1) && L(i) < L(i-1) ) return 100; else return 0; return 0; }
int r_CDLCOUNTERATTACK(int i)const{ if( COL(i-1) == -COL(i) && BODY(i-1) > AVG(BodyLong,i-1) && BODY(i) > AVG(BodyLong,i) && C(i) <= C(i-1) + AVG(Equal,i-1) && C(i) >= C(i-1) - AVG(Equal,i-1) ) return COL(i) * 100; else return 0; return 0; }
int r_CDLDARKCLOUDCOVER(int i)const{ if( COL(i-1) == 1 && BODY(i-1) > AVG(BodyLong,i-1) && COL(i) == -1 && O(i) > H(i-1) && C(i) > O(i-1) && C(i) < C(i-1) - BODY(i-1) * pen ) return -100; else return 0; return 0; }
int r_CDLDOJI(int i)const{ if( BODY(i) <= AVG(BodyDoji,i) ) return 100; else return 0; return 0; }
int r_CDLDOJISTAR(int i)const{ if( BODY(i-1) > AVG(BodyLong,i-1) && BODY(i) <= AVG(BodyDoji,i) && ( ( COL(i-1) == 1 && GAPUP(i,i-1) ) || ( COL(i-1) == -1 && GAPDOWN(i,i-1) ) ) ) return -COL(i-1) * 100; else return 0; return 0; }
int r_CDLDRAGONFLYDOJI(int i)const{ if( BODY(i) <= AVG(BodyDoji,i) && USH(i) < AVG(ShadowVeryShort,i) && LSH(i) > AVG(ShadowVeryShort,i) ) return 100; else return 0; return 0; }
int r_CDLENGULFING(int i)const{ if( ( COL(i) == 1 && COL(i-1) == -1 && ( ( C(i) >= O(i-1) && O(i) < C(i-1) ) || ( C(i) > O(i-1) && O(i) <= C(i-1) ) ) ) || ( COL(i) == -1 && COL(i-1) == 1 && ( ( O(i) >= C(i-1) && C(i) < O(i-1) ) || ( O(i) > C(i-1) && C(i) <= O(i-1) ) ) ) ) if( O(i) != C(i-1) && C(i) != O(i-1) ) return COL(i) * 100; else return COL(i) * 80; else return 0; return 0; }
int r_CDLEVENINGDOJISTAR(int i)const{ if( BODY(i-2) > AVG(BodyLong,i-2) && COL(i-2) == 1 && BODY(i-1) <= AVG(BodyDoji,i-1) && GAPUP(i-1,i-2) && BODY(i) > AVG(BodyShort,i) && COL(i) == -1 && C(i) < C(i-2) - BODY(i-2) * pen ) return -100; else return 0; return 0; }
int r_CDLEVENINGSTAR(int i)const{ if( BODY(i-2) > AVG(BodyLong,i-2) && COL(i-2) == 1 && BODY(i-1) <= AVG(BodyShort,i-1) && GAPUP(i-1,i-2) && BODY(i) > AVG(BodyShort,i) && COL(i) == -1 && C(i) < C(i-2) - BODY(i-2) * pen ) return -100; else return 0; return 0; }
int r_CDLGAPSIDESIDEWHITE(int i)const{ if( ( ( GAPUP(i-1,i-2) && GAPUP(i,i-2) ) || ( GAPDOWN(i-1,i-2) && GAPDOWN(i,i-2) ) ) && COL(i-1) == 1 && COL(i) == 1 && BODY(i) >= BODY(i-1) - AVG(Near,i-1) && BODY(i) <= BODY(i-1) + AVG(Near,i-1) && O(i) >= O(i-1) - AVG(Equal,i-1) && O(i) <= O(i-1) + AVG(Equal,i-1) ) return ( GAPUP(i-1,i-2) ? 100 : -100 ); else return 0; return 0; }
int r_CDLGRAVESTONEDOJI(int i)const{ if( BODY(i) <= AVG(BodyDoji,i) && LSH(i) < AVG(ShadowVeryShort,i) && USH(i) > AVG(ShadowVeryShort,i) ) return 100; else return 0; return 0; }
int r_CDLHAMMER(int i)const{ if( BODY(i) < AVG(BodyShort,i) && LSH(i) > AVG(ShadowLong,i) && USH(i) < AVG(ShadowVeryShort,i) && min( C(i), O(i) ) <= L(i-1) + AVG(Near,i-1) ) return 100; else return 0; return 0; }
int r_CDLHANGINGMAN(int i)const{ if( BODY(i) < AVG(BodyShort,i) && LSH(i) > AVG(ShadowLong,i) && USH(i) < AVG(ShadowVeryShort,i) && min( C(i), O(i) ) >= H(i-1) - AVG(Near,i-1) ) return -100; else return 0; return 0; }
int r_CDLHARAMI(int i)const{ if( BODY(i-1) > AVG(BodyLong,i-1) && BODY(i) <= AVG(BodyShort,i) ) if ( max( C(i), O(i) ) < max( C(i-1), O(i-1) ) && min( C(i), O(i) ) > min( C(i-1), O(i-1) ) ) return -COL(i-1) * 100; else if ( max( C(i), O(i) ) <= max( C(i-1), O(i-1) ) && min( C(i), O(i) ) >= min( C(i-1), O(i-1) ) ) return -COL(i-1) * 80; else return 0; else return 0; return 0; }
int r_CDLHARAMICROSS(int i)const{ if( BODY(i-1) > AVG(BodyLong,i-1) && BODY(i) <= AVG(BodyDoji,i) ) if ( max( C(i), O(i) ) < max( C(i-1), O(i-1) ) && min( C(i), O(i) ) > min( C(i-1), O(i-1) ) ) return -COL(i-1) * 100; else if ( max( C(i), O(i) ) <= max( C(i-1), O(i-1) ) && min( C(i), O(i) ) >= min( C(i-1), O(i-1) ) ) return -COL(i-1) * 80; else return 0; else return 0; return 0; }
int r_CDLHIGHWAVE(int i)const{ if( BODY(i) < AVG(BodyShort,i) && USH(i) > AVG(ShadowVeryLong,i) && LSH(i) > AVG(ShadowVeryLong,i) ) return COL(i) * 100; else return 0; return 0; }
int r_CDLHOMINGPIGEON(int i)const{ if( COL(i-1) == -1 && COL(i) == -1 && BODY(i-1) > AVG(BodyLong,i-1) && BODY(i) <= AVG(BodyShort,i) && O(i) < O(i-1) && C(i) > C(i-1) ) return 100; else return 0; return 0; }
int r_CDLIDENTICAL3CROWS(int i)const{ if( COL(i-2) == -1 && LSH(i-2) < AVG(ShadowVeryShort,i-2) && COL(i-1) == -1 && LSH(i-1) < AVG(ShadowVeryShort,i-1) && COL(i) == -1 && LSH(i) < AVG(ShadowVeryShort,i) && C(i-2) > C(i-1) && C(i-1) > C(i) && O(i-1) <= C(i-2) + AVG(Equal,i-2) && O(i-1) >= C(i-2) - AVG(Equal,i-2) && O(i) <= C(i-1) + AVG(Equal,i-1) && O(i) >= C(i-1) - AVG(Equal,i-1) ) return -100; else return 0; return 0; }
int r_CDLINNECK(int i)const{ if( COL(i-1) == -1 && BODY(i-1) > AVG(BodyLong,i-1) && COL(i) == 1 && O(i) < L(i-1) && C(i) <= C(i-1) + AVG(Equal,i-1) && C(i) >= C(i-1) ) return -100; else return 0; return 0; }
int r_CDLINVERTEDHAMMER(int i)const{ if( BODY(i) < AVG(BodyShort,i) && USH(i) > AVG(ShadowLong,i) && LSH(i) < AVG(ShadowVeryShort,i) && GAPDOWN(i, i-1) ) return 100; else return 0; return 0; }
int r_CDLKICKING(int i)const{ if( COL(i-1) == -COL(i) && BODY(i-1) > AVG(BodyLong,i-1) && USH(i-1) < AVG(ShadowVeryShort,i-1) && LSH(i-1) < AVG(ShadowVeryShort,i-1) && BODY(i) > AVG(BodyLong,i) && USH(i) < AVG(ShadowVeryShort,i) && LSH(i) < AVG(ShadowVeryShort,i) && ( ( COL(i-1) == -1 && CGAPUP(i,i-1) ) || ( COL(i-1) == 1 && CGAPDOWN(i,i-1) ) ) ) return COL(i) * 100; else return 0; return 0; }
int r_CDLKICKINGBYLENGTH(int i)const{ if( COL(i-1) == -COL(i) && BODY(i-1) > AVG(BodyLong,i-1) && USH(i-1) < AVG(ShadowVeryShort,i-1) && LSH(i-1) < AVG(ShadowVeryShort,i-1) && BODY(i) > AVG(BodyLong,i) && USH(i) < AVG(ShadowVeryShort,i) && LSH(i) < AVG(ShadowVeryShort,i) && ( ( COL(i-1) == -1 && CGAPUP(i,i-1) ) || ( COL(i-1) == 1 && CGAPDOWN(i,i-1) ) ) ) return COL( ( BODY(i) > BODY(i-1) ? i : i-1 ) ) * 100; else return 0; return 0; }
int r_CDLLADDERBOTTOM(int i)const{ if( COL(i-4) == -1 && COL(i-3) == -1 && COL(i-2) == -1 && O(i-4) > O(i-3) && O(i-3) > O(i-2) && C(i-4) > C(i-3) && C(i-3) > C(i-2) && COL(i-1) == -1 && USH(i-1) > AVG(ShadowVeryShort,i-1) && COL(i) == 1 && O(i) > O(i-1) && C(i) > H(i-1) ) return 100; else return 0; return 0; }
int r_CDLLONGLEGGEDDOJI(int i)const{ if( BODY(i) <= AVG(BodyDoji,i) && ( LSH(i) > AVG(ShadowLong,i) || USH(i) > AVG(ShadowLong,i) ) ) return 100; else return 0; return 0; }
int r_CDLLONGLINE(int i)const{ if( BODY(i) > AVG(BodyLong,i) && USH(i) < AVG(ShadowShort,i) && LSH(i) < AVG(ShadowShort,i) ) return COL(i) * 100; else return 0; return 0; }
int r_CDLMARUBOZU(int i)const{ if( BODY(i) > AVG(BodyLong,i) && USH(i) < AVG(ShadowVeryShort,i) && LSH(i) < AVG(ShadowVeryShort,i) ) return COL(i) * 100; else return 0; return 0; }
int r_CDLMATCHINGLOW(int i)const{ if( COL(i-1) == -1 && COL(i) == -1 && C(i) <= C(i-1) + AVG(Equal,i-1) && C(i) >= C(i-1) - AVG(Equal,i-1) ) return 100; else return 0; return 0; }
int r_CDLMATHOLD(int i)const{ if( BODY(i-4) > AVG(BodyLong,i-4) && BODY(i-3) < AVG(BodyShort,i-3) && BODY(i-2) < AVG(BodyShort,i-2) && BODY(i-1) < AVG(BodyShort,i-1) && COL(i-4) == 1 && COL(i-3) == -1 && COL(i) == 1 && GAPUP(i-3,i-4) && min(O(i-2), C(i-2)) < C(i-4) && min(O(i-1), C(i-1)) < C(i-4) && min(O(i-2), C(i-2)) > C(i-4) - BODY(i-4) * pen && min(O(i-1), C(i-1)) > C(i-4) - BODY(i-4) * pen && max(C(i-2), O(i-2)) < O(i-3) && max(C(i-1), O(i-1)) < max(C(i-2), O(i-2)) && O(i) > C(i-1) && C(i) > max(max(H(i-3), H(i-2)), H(i-1)) ) return 100; else return 0; return 0; }
int r_CDLMORNINGDOJISTAR(int i)const{ if( BODY(i-2) > AVG(BodyLong,i-2) && COL(i-2) == -1 && BODY(i-1) <= AVG(BodyDoji,i-1) && GAPDOWN(i-1,i-2) && BODY(i) > AVG(BodyShort,i) && COL(i) == 1 && C(i) > C(i-2) + BODY(i-2) * pen ) return 100; else return 0; return 0; }
int r_CDLMORNINGSTAR(int i)const{ if( BODY(i-2) > AVG(BodyLong,i-2) && COL(i-2) == -1 && BODY(i-1) <= AVG(BodyShort,i-1) && GAPDOWN(i-1,i-2) && BODY(i) > AVG(BodyShort,i) && COL(i) == 1 && C(i) > C(i-2) + BODY(i-2) * pen ) return 100; else return 0; return 0; }
int r_CDLONNECK(int i)const{ if( COL(i-1) == -1 && BODY(i-1) > AVG(BodyLong,i-1) && COL(i) == 1 && O(i) < L(i-1) && C(i) <= L(i-1) + AVG(Equal,i-1) && C(i) >= L(i-1) - AVG(Equal,i-1) ) return -100; else return 0; return 0; }
int r_CDLPIERCING(int i)const{ if( COL(i-1) == -1 && BODY(i-1) > AVG(BodyLong,i-1) && COL(i) == 1 && BODY(i) > AVG(BodyLong,i) && O(i) < L(i-1) && C(i) < O(i-1) && C(i) > C(i-1) + BODY(i-1) * 0.5 ) return 100; else return 0; return 0; }
int r_CDLRICKSHAWMAN(int i)const{ if( BODY(i) <= AVG(BodyDoji,i) && LSH(i) > AVG(ShadowLong,i) && USH(i) > AVG(ShadowLong,i) && ( min( O(i), C(i) ) <= L(i) + HLR(i) / 2 + AVG(Near,i) && max( O(i), C(i) ) >= L(i) + HLR(i) / 2 - AVG(Near,i) ) ) return 100; else return 0; return 0; }
int r_CDLRISEFALL3METHODS(int i)const{ if( BODY(i-4) > AVG(BodyLong,i-4) && BODY(i-3) < AVG(BodyShort,i-3) && BODY(i-2) < AVG(BodyShort,i-2) && BODY(i-1) < AVG(BodyShort,i-1) && BODY(i) > AVG(BodyLong,i) && COL(i-4) == -COL(i-3) && COL(i-3) == COL(i-2) && COL(i-2) == COL(i-1) && COL(i-1) == -COL(i) && min(O(i-3), C(i-3)) < H(i-4) && max(O(i-3), C(i-3)) > L(i-4) && min(O(i-2), C(i-2)) < H(i-4) && max(O(i-2), C(i-2)) > L(i-4) && min(O(i-1), C(i-1)) < H(i-4) && max(O(i-1), C(i-1)) > L(i-4) && C(i-2) * COL(i-4) < C(i-3) * COL(i-4) && C(i-1) * COL(i-4) < C(i-2) * COL(i-4) && O(i) * COL(i-4) > C(i-1) * COL(i-4) && C(i) * COL(i-4) > C(i-4) * COL(i-4) ) return 100 * COL(i-4); else return 0; return 0; }
int r_CDLSEPARATINGLINES(int i)const{ if( COL(i-1) == -COL(i) && O(i) <= O(i-1) + AVG(Equal,i-1) && O(i) >= O(i-1) - AVG(Equal,i-1) && BODY(i) > AVG(BodyLong,i) && ( ( COL(i) == 1 && LSH(i) < AVG(ShadowVeryShort,i) ) || ( COL(i) == -1 && USH(i) < AVG(ShadowVeryShort,i) ) ) ) return COL(i) * 100; else return 0; return 0; }
int r_CDLSHOOTINGSTAR(int i)const{ if( BODY(i) < AVG(BodyShort,i) && USH(i) > AVG(ShadowLong,i) && LSH(i) < AVG(ShadowVeryShort,i) && GAPUP(i, i-1) ) return -100; else return 0; return 0; }
int r_CDLSHORTLINE(int i)const{ if( BODY(i) < AVG(BodyShort,i) && USH(i) < AVG(ShadowShort,i) && LSH(i) < AVG(ShadowShort,i) ) return COL(i) * 100; else return 0; return 0; }
int r_CDLSPINNINGTOP(int i)const{ if( BODY(i) < AVG(BodyShort,i) && USH(i) > BODY(i) && LSH(i) > BODY(i) ) return COL(i) * 100; else return 0; return 0; }
int r_CDLSTALLEDPATTERN(int i)const{ if( COL(i-2) == 1 && COL(i-1) == 1 && COL(i) == 1 && C(i) > C(i-1) && C(i-1) > C(i-2) && BODY(i-2) > AVG(BodyLong,i-2) && BODY(i-1) > AVG(BodyLong,i-1) && USH(i-1) < AVG(ShadowVeryShort,i-1) && O(i-1) > O(i-2) && O(i-1) <= C(i-2) + AVG(Near,i-2) && BODY(i) < AVG(BodyShort,i) && O(i) >= C(i-1) - BODY(i) - AVG(Near,i-1) ) return -100; else return 0; return 0; }
int r_CDLSTICKSANDWICH(int i)const{ if( COL(i-2) == -1 && COL(i-1) == 1 && COL(i) == -1 && L(i-1) > C(i-2) && C(i) <= C(i-2) + AVG(Equal,i-2) && C(i) >= C(i-2) - AVG(Equal,i-2) ) return 100; else return 0; return 0; }
int r_CDLTAKURI(int i)const{ if( BODY(i) <= AVG(BodyDoji,i) && USH(i) < AVG(ShadowVeryShort,i) && LSH(i) > AVG(ShadowVeryLong,i) ) return 100; else return 0; return 0; }
int r_CDLTASUKIGAP(int i)const{ if( ( GAPUP(i-1,i-2) && COL(i-1) == 1 && COL(i) == -1 && O(i) < C(i-1) && O(i) > O(i-1) && C(i) < O(i-1) && C(i) > max(C(i-2), O(i-2)) && fabs(BODY(i-1) - BODY(i)) < AVG(Near,i-1) ) || ( GAPDOWN(i-1,i-2) && COL(i-1) == -1 && COL(i) == 1 && O(i) < O(i-1) && O(i) > C(i-1) && C(i) > O(i-1) && C(i) < min(C(i-2), O(i-2)) && fabs(BODY(i-1) - BODY(i)) < AVG(Near,i-1) ) ) return COL(i-1) * 100; else return 0; return 0; }
int r_CDLTHRUSTING(int i)const{ if( COL(i-1) == -1 && BODY(i-1) > AVG(BodyLong,i-1) && COL(i) == 1 && O(i) < L(i-1) && C(i) > C(i-1) + AVG(Equal,i-1) && C(i) <= C(i-1) + BODY(i-1) * 0.5 ) return -100; else return 0; return 0; }
int r_CDLTRISTAR(int i)const{ int r=0; if( BODY(i-2) <= AVG(BodyDoji,i-2) && BODY(i-1) <= AVG(BodyDoji,i-2) && BODY(i) <= AVG(BodyDoji,i-2) ) { r = 0; if ( GAPUP(i-1,i-2) && max(O(i),C(i)) < max(O(i-1),C(i-1)) ) r = -100; if ( GAPDOWN(i-1,i-2) && min(O(i),C(i)) > min(O(i-1),C(i-1)) ) r = +100; return r; } else return 0; return 0; }
int r_CDLUNIQUE3RIVER(int i)const{ if( BODY(i-2) > AVG(BodyLong,i-2) && COL(i-2) == -1 && COL(i-1) == -1 && C(i-1) > C(i-2) && O(i-1) <= O(i-2) && L(i-1) < L(i-2) && BODY(i) < AVG(BodyShort,i) && COL(i) == 1 && O(i) > L(i-1) ) return 100; else return 0; return 0; }
int r_CDLUPSIDEGAP2CROWS(int i)const{ if( COL(i-2) == 1 && BODY(i-2) > AVG(BodyLong,i-2) && COL(i-1) == -1 && BODY(i-1) <= AVG(BodyShort,i-1) && GAPUP(i-1,i-2) && COL(i) == -1 && O(i) > O(i-1) && C(i) < C(i-1) && C(i) > C(i-2) ) return -100; else return 0; return 0; }
int r_CDLXSIDEGAP3METHODS(int i)const{ if( COL(i-2) == COL(i-1) && COL(i-1) == -COL(i) && O(i) < max(C(i-1), O(i-1)) && O(i) > min(C(i-1), O(i-1)) && C(i) < max(C(i-2), O(i-2)) && C(i) > min(C(i-2), O(i-2)) && ( ( COL(i-2) == 1 && GAPUP(i-1,i-2) ) || ( COL(i-2) == -1 && GAPDOWN(i-1,i-2) ) ) ) return COL(i-2) * 100; else return 0; return 0; }
