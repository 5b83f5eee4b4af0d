/* GENERATED ONCE by tools/gen_table.py from the pinned tree; committed. */
static TA_RetCode b_ACCBANDS(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_ACCBANDS(s,e, p[0], p[1], p[2], (int)o[0],b,n, (double*)q[0], (double*)q[1], (double*)q[2]);}
static TA_RetCode f_ACCBANDS(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_ACCBANDS(s,e, p[0], p[1], p[2], (int)o[0],b,n, (double*)q[0], (double*)q[1], (double*)q[2]);}
static int l_ACCBANDS(const double*o){return TA_ACCBANDS_Lookback((int)o[0]);}
static TA_RetCode si_ACCBANDS(void**st,const double*o){return TA_ACCBANDS_StateInit((struct TA_ACCBANDS_State**)st, (int)o[0]);}
static TA_RetCode st_ACCBANDS(void*st,const double*p,void*const*q){return TA_ACCBANDS_State((struct TA_ACCBANDS_State*)st, p[0], p[1], p[2], (double*)q[0], (double*)q[1], (double*)q[2]);}
static TA_RetCode sb_ACCBANDS(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_ACCBANDS_BatchState((struct TA_ACCBANDS_State*)st,s,e, p[0], p[1], p[2],b,n, (double*)q[0], (double*)q[1], (double*)q[2]);}
static TA_RetCode sf_ACCBANDS(void**st){return TA_ACCBANDS_StateFree((struct TA_ACCBANDS_State**)st);}
static TA_RetCode ss_ACCBANDS(void*st,FILE*f){return TA_ACCBANDS_StateSave((struct TA_ACCBANDS_State*)st,f);}
static TA_RetCode sl_ACCBANDS(void**st,FILE*f){return TA_ACCBANDS_StateLoad((struct TA_ACCBANDS_State**)st,f);}
static TA_RetCode b_ACOS(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_ACOS(s,e, p[0],b,n, (double*)q[0]);}
static TA_RetCode f_ACOS(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_ACOS(s,e, p[0],b,n, (double*)q[0]);}
static int l_ACOS(const double*o){return TA_ACOS_Lookback();}
static TA_RetCode si_ACOS(void**st,const double*o){return TA_ACOS_StateInit((struct TA_ACOS_State**)st);}
static TA_RetCode st_ACOS(void*st,const double*p,void*const*q){return TA_ACOS_State((struct TA_ACOS_State*)st, p[0], (double*)q[0]);}
static TA_RetCode sb_ACOS(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_ACOS_BatchState((struct TA_ACOS_State*)st,s,e, p[0],b,n, (double*)q[0]);}
static TA_RetCode sf_ACOS(void**st){return TA_ACOS_StateFree((struct TA_ACOS_State**)st);}
static TA_RetCode ss_ACOS(void*st,FILE*f){return TA_ACOS_StateSave((struct TA_ACOS_State*)st,f);}
static TA_RetCode sl_ACOS(void**st,FILE*f){return TA_ACOS_StateLoad((struct TA_ACOS_State**)st,f);}
static TA_RetCode b_AD(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_AD(s,e, p[0], p[1], p[2], p[3],b,n, (double*)q[0]);}
static TA_RetCode f_AD(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_AD(s,e, p[0], p[1], p[2], p[3],b,n, (double*)q[0]);}
static int l_AD(const double*o){return TA_AD_Lookback();}
static TA_RetCode si_AD(void**st,const double*o){return TA_AD_StateInit((struct TA_AD_State**)st);}
static TA_RetCode st_AD(void*st,const double*p,void*const*q){return TA_AD_State((struct TA_AD_State*)st, p[0], p[1], p[2], p[3], (double*)q[0]);}
static TA_RetCode sb_AD(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_AD_BatchState((struct TA_AD_State*)st,s,e, p[0], p[1], p[2], p[3],b,n, (double*)q[0]);}
static TA_RetCode sf_AD(void**st){return TA_AD_StateFree((struct TA_AD_State**)st);}
static TA_RetCode ss_AD(void*st,FILE*f){return TA_AD_StateSave((struct TA_AD_State*)st,f);}
static TA_RetCode sl_AD(void**st,FILE*f){return TA_AD_StateLoad((struct TA_AD_State**)st,f);}
static TA_RetCode b_ADD(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_ADD(s,e, p[0], p[1],b,n, (double*)q[0]);}
static TA_RetCode f_ADD(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_ADD(s,e, p[0], p[1],b,n, (double*)q[0]);}
static int l_ADD(const double*o){return TA_ADD_Lookback();}
static TA_RetCode si_ADD(void**st,const double*o){return TA_ADD_StateInit((struct TA_ADD_State**)st);}
static TA_RetCode st_ADD(void*st,const double*p,void*const*q){return TA_ADD_State((struct TA_ADD_State*)st, p[0], p[1], (double*)q[0]);}
static TA_RetCode sb_ADD(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_ADD_BatchState((struct TA_ADD_State*)st,s,e, p[0], p[1],b,n, (double*)q[0]);}
static TA_RetCode sf_ADD(void**st){return TA_ADD_StateFree((struct TA_ADD_State**)st);}
static TA_RetCode ss_ADD(void*st,FILE*f){return TA_ADD_StateSave((struct TA_ADD_State*)st,f);}
static TA_RetCode sl_ADD(void**st,FILE*f){return TA_ADD_StateLoad((struct TA_ADD_State**)st,f);}
static TA_RetCode b_ADOSC(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_ADOSC(s,e, p[0], p[1], p[2], p[3], (int)o[0], (int)o[1],b,n, (double*)q[0]);}
static TA_RetCode f_ADOSC(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_ADOSC(s,e, p[0], p[1], p[2], p[3], (int)o[0], (int)o[1],b,n, (double*)q[0]);}
static int l_ADOSC(const double*o){return TA_ADOSC_Lookback((int)o[0], (int)o[1]);}
static TA_RetCode si_ADOSC(void**st,const double*o){return TA_ADOSC_StateInit((struct TA_ADOSC_State**)st, (int)o[0], (int)o[1]);}
static TA_RetCode st_ADOSC(void*st,const double*p,void*const*q){return TA_ADOSC_State((struct TA_ADOSC_State*)st, p[0], p[1], p[2], p[3], (double*)q[0]);}
static TA_RetCode sb_ADOSC(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_ADOSC_BatchState((struct TA_ADOSC_State*)st,s,e, p[0], p[1], p[2], p[3],b,n, (double*)q[0]);}
static TA_RetCode sf_ADOSC(void**st){return TA_ADOSC_StateFree((struct TA_ADOSC_State**)st);}
static TA_RetCode ss_ADOSC(void*st,FILE*f){return TA_ADOSC_StateSave((struct TA_ADOSC_State*)st,f);}
static TA_RetCode sl_ADOSC(void**st,FILE*f){return TA_ADOSC_StateLoad((struct TA_ADOSC_State**)st,f);}
static TA_RetCode b_ADX(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_ADX(s,e, p[0], p[1], p[2], (int)o[0],b,n, (double*)q[0]);}
static TA_RetCode f_ADX(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_ADX(s,e, p[0], p[1], p[2], (int)o[0],b,n, (double*)q[0]);}
static int l_ADX(const double*o){return TA_ADX_Lookback((int)o[0]);}
static TA_RetCode si_ADX(void**st,const double*o){return TA_ADX_StateInit((struct TA_ADX_State**)st, (int)o[0]);}
static TA_RetCode st_ADX(void*st,const double*p,void*const*q){return TA_ADX_State((struct TA_ADX_State*)st, p[0], p[1], p[2], (double*)q[0]);}
static TA_RetCode sb_ADX(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_ADX_BatchState((struct TA_ADX_State*)st,s,e, p[0], p[1], p[2],b,n, (double*)q[0]);}
static TA_RetCode sf_ADX(void**st){return TA_ADX_StateFree((struct TA_ADX_State**)st);}
static TA_RetCode ss_ADX(void*st,FILE*f){return TA_ADX_StateSave((struct TA_ADX_State*)st,f);}
static TA_RetCode sl_ADX(void**st,FILE*f){return TA_ADX_StateLoad((struct TA_ADX_State**)st,f);}
static TA_RetCode b_ADXR(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_ADXR(s,e, p[0], p[1], p[2], (int)o[0],b,n, (double*)q[0]);}
static TA_RetCode f_ADXR(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_ADXR(s,e, p[0], p[1], p[2], (int)o[0],b,n, (double*)q[0]);}
static int l_ADXR(const double*o){return TA_ADXR_Lookback((int)o[0]);}
static TA_RetCode si_ADXR(void**st,const double*o){return TA_ADXR_StateInit((struct TA_ADXR_State**)st, (int)o[0]);}
static TA_RetCode st_ADXR(void*st,const double*p,void*const*q){return TA_ADXR_State((struct TA_ADXR_State*)st, p[0], p[1], p[2], (double*)q[0]);}
static TA_RetCode sb_ADXR(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_ADXR_BatchState((struct TA_ADXR_State*)st,s,e, p[0], p[1], p[2],b,n, (double*)q[0]);}
static TA_RetCode sf_ADXR(void**st){return TA_ADXR_StateFree((struct TA_ADXR_State**)st);}
static TA_RetCode ss_ADXR(void*st,FILE*f){return TA_ADXR_StateSave((struct TA_ADXR_State*)st,f);}
static TA_RetCode sl_ADXR(void**st,FILE*f){return TA_ADXR_StateLoad((struct TA_ADXR_State**)st,f);}
static TA_RetCode b_APO(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_APO(s,e, p[0], (int)o[0], (int)o[1], (TA_MAType)(int)o[2],b,n, (double*)q[0]);}
static TA_RetCode f_APO(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_APO(s,e, p[0], (int)o[0], (int)o[1], (TA_MAType)(int)o[2],b,n, (double*)q[0]);}
static int l_APO(const double*o){return TA_APO_Lookback((int)o[0], (int)o[1], (TA_MAType)(int)o[2]);}
static TA_RetCode si_APO(void**st,const double*o){return TA_APO_StateInit((struct TA_APO_State**)st, (int)o[0], (int)o[1], (TA_MAType)(int)o[2]);}
static TA_RetCode st_APO(void*st,const double*p,void*const*q){return TA_APO_State((struct TA_APO_State*)st, p[0], (double*)q[0]);}
static TA_RetCode sb_APO(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_APO_BatchState((struct TA_APO_State*)st,s,e, p[0],b,n, (double*)q[0]);}
static TA_RetCode sf_APO(void**st){return TA_APO_StateFree((struct TA_APO_State**)st);}
static TA_RetCode ss_APO(void*st,FILE*f){return TA_APO_StateSave((struct TA_APO_State*)st,f);}
static TA_RetCode sl_APO(void**st,FILE*f){return TA_APO_StateLoad((struct TA_APO_State**)st,f);}
static TA_RetCode b_AROON(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_AROON(s,e, p[0], p[1], (int)o[0],b,n, (double*)q[0], (double*)q[1]);}
static TA_RetCode f_AROON(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_AROON(s,e, p[0], p[1], (int)o[0],b,n, (double*)q[0], (double*)q[1]);}
static int l_AROON(const double*o){return TA_AROON_Lookback((int)o[0]);}
static TA_RetCode si_AROON(void**st,const double*o){return TA_AROON_StateInit((struct TA_AROON_State**)st, (int)o[0]);}
static TA_RetCode st_AROON(void*st,const double*p,void*const*q){return TA_AROON_State((struct TA_AROON_State*)st, p[0], p[1], (double*)q[0], (double*)q[1]);}
static TA_RetCode sb_AROON(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_AROON_BatchState((struct TA_AROON_State*)st,s,e, p[0], p[1],b,n, (double*)q[0], (double*)q[1]);}
static TA_RetCode sf_AROON(void**st){return TA_AROON_StateFree((struct TA_AROON_State**)st);}
static TA_RetCode ss_AROON(void*st,FILE*f){return TA_AROON_StateSave((struct TA_AROON_State*)st,f);}
static TA_RetCode sl_AROON(void**st,FILE*f){return TA_AROON_StateLoad((struct TA_AROON_State**)st,f);}
static TA_RetCode b_AROONOSC(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_AROONOSC(s,e, p[0], p[1], (int)o[0],b,n, (double*)q[0]);}
static TA_RetCode f_AROONOSC(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_AROONOSC(s,e, p[0], p[1], (int)o[0],b,n, (double*)q[0]);}
static int l_AROONOSC(const double*o){return TA_AROONOSC_Lookback((int)o[0]);}
static TA_RetCode si_AROONOSC(void**st,const double*o){return TA_AROONOSC_StateInit((struct TA_AROONOSC_State**)st, (int)o[0]);}
static TA_RetCode st_AROONOSC(void*st,const double*p,void*const*q){return TA_AROONOSC_State((struct TA_AROONOSC_State*)st, p[0], p[1], (double*)q[0]);}
static TA_RetCode sb_AROONOSC(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_AROONOSC_BatchState((struct TA_AROONOSC_State*)st,s,e, p[0], p[1],b,n, (double*)q[0]);}
static TA_RetCode sf_AROONOSC(void**st){return TA_AROONOSC_StateFree((struct TA_AROONOSC_State**)st);}
static TA_RetCode ss_AROONOSC(void*st,FILE*f){return TA_AROONOSC_StateSave((struct TA_AROONOSC_State*)st,f);}
static TA_RetCode sl_AROONOSC(void**st,FILE*f){return TA_AROONOSC_StateLoad((struct TA_AROONOSC_State**)st,f);}
static TA_RetCode b_ASIN(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_ASIN(s,e, p[0],b,n, (double*)q[0]);}
static TA_RetCode f_ASIN(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_ASIN(s,e, p[0],b,n, (double*)q[0]);}
static int l_ASIN(const double*o){return TA_ASIN_Lookback();}
static TA_RetCode si_ASIN(void**st,const double*o){return TA_ASIN_StateInit((struct TA_ASIN_State**)st);}
static TA_RetCode st_ASIN(void*st,const double*p,void*const*q){return TA_ASIN_State((struct TA_ASIN_State*)st, p[0], (double*)q[0]);}
static TA_RetCode sb_ASIN(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_ASIN_BatchState((struct TA_ASIN_State*)st,s,e, p[0],b,n, (double*)q[0]);}
static TA_RetCode sf_ASIN(void**st){return TA_ASIN_StateFree((struct TA_ASIN_State**)st);}
static TA_RetCode ss_ASIN(void*st,FILE*f){return TA_ASIN_StateSave((struct TA_ASIN_State*)st,f);}
static TA_RetCode sl_ASIN(void**st,FILE*f){return TA_ASIN_StateLoad((struct TA_ASIN_State**)st,f);}
static TA_RetCode b_ATAN(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_ATAN(s,e, p[0],b,n, (double*)q[0]);}
static TA_RetCode f_ATAN(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_ATAN(s,e, p[0],b,n, (double*)q[0]);}
static int l_ATAN(const double*o){return TA_ATAN_Lookback();}
static TA_RetCode si_ATAN(void**st,const double*o){return TA_ATAN_StateInit((struct TA_ATAN_State**)st);}
static TA_RetCode st_ATAN(void*st,const double*p,void*const*q){return TA_ATAN_State((struct TA_ATAN_State*)st, p[0], (double*)q[0]);}
static TA_RetCode sb_ATAN(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_ATAN_BatchState((struct TA_ATAN_State*)st,s,e, p[0],b,n, (double*)q[0]);}
static TA_RetCode sf_ATAN(void**st){return TA_ATAN_StateFree((struct TA_ATAN_State**)st);}
static TA_RetCode ss_ATAN(void*st,FILE*f){return TA_ATAN_StateSave((struct TA_ATAN_State*)st,f);}
static TA_RetCode sl_ATAN(void**st,FILE*f){return TA_ATAN_StateLoad((struct TA_ATAN_State**)st,f);}
static TA_RetCode b_ATR(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_ATR(s,e, p[0], p[1], p[2], (int)o[0],b,n, (double*)q[0]);}
static TA_RetCode f_ATR(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_ATR(s,e, p[0], p[1], p[2], (int)o[0],b,n, (double*)q[0]);}
static int l_ATR(const double*o){return TA_ATR_Lookback((int)o[0]);}
static TA_RetCode si_ATR(void**st,const double*o){return TA_ATR_StateInit((struct TA_ATR_State**)st, (int)o[0]);}
static TA_RetCode st_ATR(void*st,const double*p,void*const*q){return TA_ATR_State((struct TA_ATR_State*)st, p[0], p[1], p[2], (double*)q[0]);}
static TA_RetCode sb_ATR(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_ATR_BatchState((struct TA_ATR_State*)st,s,e, p[0], p[1], p[2],b,n, (double*)q[0]);}
static TA_RetCode sf_ATR(void**st){return TA_ATR_StateFree((struct TA_ATR_State**)st);}
static TA_RetCode ss_ATR(void*st,FILE*f){return TA_ATR_StateSave((struct TA_ATR_State*)st,f);}
static TA_RetCode sl_ATR(void**st,FILE*f){return TA_ATR_StateLoad((struct TA_ATR_State**)st,f);}
static TA_RetCode b_AVGPRICE(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_AVGPRICE(s,e, p[0], p[1], p[2], p[3],b,n, (double*)q[0]);}
static TA_RetCode f_AVGPRICE(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_AVGPRICE(s,e, p[0], p[1], p[2], p[3],b,n, (double*)q[0]);}
static int l_AVGPRICE(const double*o){return TA_AVGPRICE_Lookback();}
static TA_RetCode si_AVGPRICE(void**st,const double*o){return TA_AVGPRICE_StateInit((struct TA_AVGPRICE_State**)st);}
static TA_RetCode st_AVGPRICE(void*st,const double*p,void*const*q){return TA_AVGPRICE_State((struct TA_AVGPRICE_State*)st, p[0], p[1], p[2], p[3], (double*)q[0]);}
static TA_RetCode sb_AVGPRICE(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_AVGPRICE_BatchState((struct TA_AVGPRICE_State*)st,s,e, p[0], p[1], p[2], p[3],b,n, (double*)q[0]);}
static TA_RetCode sf_AVGPRICE(void**st){return TA_AVGPRICE_StateFree((struct TA_AVGPRICE_State**)st);}
static TA_RetCode ss_AVGPRICE(void*st,FILE*f){return TA_AVGPRICE_StateSave((struct TA_AVGPRICE_State*)st,f);}
static TA_RetCode sl_AVGPRICE(void**st,FILE*f){return TA_AVGPRICE_StateLoad((struct TA_AVGPRICE_State**)st,f);}
static TA_RetCode b_AVGDEV(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_AVGDEV(s,e, p[0], (int)o[0],b,n, (double*)q[0]);}
static TA_RetCode f_AVGDEV(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_AVGDEV(s,e, p[0], (int)o[0],b,n, (double*)q[0]);}
static int l_AVGDEV(const double*o){return TA_AVGDEV_Lookback((int)o[0]);}
static TA_RetCode si_AVGDEV(void**st,const double*o){return TA_AVGDEV_StateInit((struct TA_AVGDEV_State**)st, (int)o[0]);}
static TA_RetCode st_AVGDEV(void*st,const double*p,void*const*q){return TA_AVGDEV_State((struct TA_AVGDEV_State*)st, p[0], (double*)q[0]);}
static TA_RetCode sb_AVGDEV(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_AVGDEV_BatchState((struct TA_AVGDEV_State*)st,s,e, p[0],b,n, (double*)q[0]);}
static TA_RetCode sf_AVGDEV(void**st){return TA_AVGDEV_StateFree((struct TA_AVGDEV_State**)st);}
static TA_RetCode ss_AVGDEV(void*st,FILE*f){return TA_AVGDEV_StateSave((struct TA_AVGDEV_State*)st,f);}
static TA_RetCode sl_AVGDEV(void**st,FILE*f){return TA_AVGDEV_StateLoad((struct TA_AVGDEV_State**)st,f);}
static TA_RetCode b_BBANDS(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_BBANDS(s,e, p[0], (int)o[0], o[1], o[2], (TA_MAType)(int)o[3],b,n, (double*)q[0], (double*)q[1], (double*)q[2]);}
static TA_RetCode f_BBANDS(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_BBANDS(s,e, p[0], (int)o[0], o[1], o[2], (TA_MAType)(int)o[3],b,n, (double*)q[0], (double*)q[1], (double*)q[2]);}
static int l_BBANDS(const double*o){return TA_BBANDS_Lookback((int)o[0], o[1], o[2], (TA_MAType)(int)o[3]);}
static TA_RetCode si_BBANDS(void**st,const double*o){return TA_BBANDS_StateInit((struct TA_BBANDS_State**)st, (int)o[0], o[1], o[2], (TA_MAType)(int)o[3]);}
static TA_RetCode st_BBANDS(void*st,const double*p,void*const*q){return TA_BBANDS_State((struct TA_BBANDS_State*)st, p[0], (double*)q[0], (double*)q[1], (double*)q[2]);}
static TA_RetCode sb_BBANDS(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_BBANDS_BatchState((struct TA_BBANDS_State*)st,s,e, p[0],b,n, (double*)q[0], (double*)q[1], (double*)q[2]);}
static TA_RetCode sf_BBANDS(void**st){return TA_BBANDS_StateFree((struct TA_BBANDS_State**)st);}
static TA_RetCode ss_BBANDS(void*st,FILE*f){return TA_BBANDS_StateSave((struct TA_BBANDS_State*)st,f);}
static TA_RetCode sl_BBANDS(void**st,FILE*f){return TA_BBANDS_StateLoad((struct TA_BBANDS_State**)st,f);}
static TA_RetCode b_BETA(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_BETA(s,e, p[0], p[1], (int)o[0],b,n, (double*)q[0]);}
static TA_RetCode f_BETA(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_BETA(s,e, p[0], p[1], (int)o[0],b,n, (double*)q[0]);}
static int l_BETA(const double*o){return TA_BETA_Lookback((int)o[0]);}
static TA_RetCode si_BETA(void**st,const double*o){return TA_BETA_StateInit((struct TA_BETA_State**)st, (int)o[0]);}
static TA_RetCode st_BETA(void*st,const double*p,void*const*q){return TA_BETA_State((struct TA_BETA_State*)st, p[0], p[1], (double*)q[0]);}
static TA_RetCode sb_BETA(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_BETA_BatchState((struct TA_BETA_State*)st,s,e, p[0], p[1],b,n, (double*)q[0]);}
static TA_RetCode sf_BETA(void**st){return TA_BETA_StateFree((struct TA_BETA_State**)st);}
static TA_RetCode ss_BETA(void*st,FILE*f){return TA_BETA_StateSave((struct TA_BETA_State*)st,f);}
static TA_RetCode sl_BETA(void**st,FILE*f){return TA_BETA_StateLoad((struct TA_BETA_State**)st,f);}
static TA_RetCode b_BOP(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_BOP(s,e, p[0], p[1], p[2], p[3],b,n, (double*)q[0]);}
static TA_RetCode f_BOP(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_BOP(s,e, p[0], p[1], p[2], p[3],b,n, (double*)q[0]);}
static int l_BOP(const double*o){return TA_BOP_Lookback();}
static TA_RetCode si_BOP(void**st,const double*o){return TA_BOP_StateInit((struct TA_BOP_State**)st);}
static TA_RetCode st_BOP(void*st,const double*p,void*const*q){return TA_BOP_State((struct TA_BOP_State*)st, p[0], p[1], p[2], p[3], (double*)q[0]);}
static TA_RetCode sb_BOP(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_BOP_BatchState((struct TA_BOP_State*)st,s,e, p[0], p[1], p[2], p[3],b,n, (double*)q[0]);}
static TA_RetCode sf_BOP(void**st){return TA_BOP_StateFree((struct TA_BOP_State**)st);}
static TA_RetCode ss_BOP(void*st,FILE*f){return TA_BOP_StateSave((struct TA_BOP_State*)st,f);}
static TA_RetCode sl_BOP(void**st,FILE*f){return TA_BOP_StateLoad((struct TA_BOP_State**)st,f);}
static TA_RetCode b_CCI(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_CCI(s,e, p[0], p[1], p[2], (int)o[0],b,n, (double*)q[0]);}
static TA_RetCode f_CCI(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_CCI(s,e, p[0], p[1], p[2], (int)o[0],b,n, (double*)q[0]);}
static int l_CCI(const double*o){return TA_CCI_Lookback((int)o[0]);}
static TA_RetCode si_CCI(void**st,const double*o){return TA_CCI_StateInit((struct TA_CCI_State**)st, (int)o[0]);}
static TA_RetCode st_CCI(void*st,const double*p,void*const*q){return TA_CCI_State((struct TA_CCI_State*)st, p[0], p[1], p[2], (double*)q[0]);}
static TA_RetCode sb_CCI(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_CCI_BatchState((struct TA_CCI_State*)st,s,e, p[0], p[1], p[2],b,n, (double*)q[0]);}
static TA_RetCode sf_CCI(void**st){return TA_CCI_StateFree((struct TA_CCI_State**)st);}
static TA_RetCode ss_CCI(void*st,FILE*f){return TA_CCI_StateSave((struct TA_CCI_State*)st,f);}
static TA_RetCode sl_CCI(void**st,FILE*f){return TA_CCI_StateLoad((struct TA_CCI_State**)st,f);}
static TA_RetCode b_CDL2CROWS(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_CDL2CROWS(s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static TA_RetCode f_CDL2CROWS(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_CDL2CROWS(s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static int l_CDL2CROWS(const double*o){return TA_CDL2CROWS_Lookback();}
static TA_RetCode si_CDL2CROWS(void**st,const double*o){return TA_CDL2CROWS_StateInit((struct TA_CDL2CROWS_State**)st);}
static TA_RetCode st_CDL2CROWS(void*st,const double*p,void*const*q){return TA_CDL2CROWS_State((struct TA_CDL2CROWS_State*)st, p[0], p[1], p[2], p[3], (int*)q[0]);}
static TA_RetCode sb_CDL2CROWS(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_CDL2CROWS_BatchState((struct TA_CDL2CROWS_State*)st,s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static TA_RetCode sf_CDL2CROWS(void**st){return TA_CDL2CROWS_StateFree((struct TA_CDL2CROWS_State**)st);}
static TA_RetCode ss_CDL2CROWS(void*st,FILE*f){return TA_CDL2CROWS_StateSave((struct TA_CDL2CROWS_State*)st,f);}
static TA_RetCode sl_CDL2CROWS(void**st,FILE*f){return TA_CDL2CROWS_StateLoad((struct TA_CDL2CROWS_State**)st,f);}
static TA_RetCode b_CDL3BLACKCROWS(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_CDL3BLACKCROWS(s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static TA_RetCode f_CDL3BLACKCROWS(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_CDL3BLACKCROWS(s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static int l_CDL3BLACKCROWS(const double*o){return TA_CDL3BLACKCROWS_Lookback();}
static TA_RetCode si_CDL3BLACKCROWS(void**st,const double*o){return TA_CDL3BLACKCROWS_StateInit((struct TA_CDL3BLACKCROWS_State**)st);}
static TA_RetCode st_CDL3BLACKCROWS(void*st,const double*p,void*const*q){return TA_CDL3BLACKCROWS_State((struct TA_CDL3BLACKCROWS_State*)st, p[0], p[1], p[2], p[3], (int*)q[0]);}
static TA_RetCode sb_CDL3BLACKCROWS(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_CDL3BLACKCROWS_BatchState((struct TA_CDL3BLACKCROWS_State*)st,s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static TA_RetCode sf_CDL3BLACKCROWS(void**st){return TA_CDL3BLACKCROWS_StateFree((struct TA_CDL3BLACKCROWS_State**)st);}
static TA_RetCode ss_CDL3BLACKCROWS(void*st,FILE*f){return TA_CDL3BLACKCROWS_StateSave((struct TA_CDL3BLACKCROWS_State*)st,f);}
static TA_RetCode sl_CDL3BLACKCROWS(void**st,FILE*f){return TA_CDL3BLACKCROWS_StateLoad((struct TA_CDL3BLACKCROWS_State**)st,f);}
static TA_RetCode b_CDL3INSIDE(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_CDL3INSIDE(s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static TA_RetCode f_CDL3INSIDE(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_CDL3INSIDE(s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static int l_CDL3INSIDE(const double*o){return TA_CDL3INSIDE_Lookback();}
static TA_RetCode si_CDL3INSIDE(void**st,const double*o){return TA_CDL3INSIDE_StateInit((struct TA_CDL3INSIDE_State**)st);}
static TA_RetCode st_CDL3INSIDE(void*st,const double*p,void*const*q){return TA_CDL3INSIDE_State((struct TA_CDL3INSIDE_State*)st, p[0], p[1], p[2], p[3], (int*)q[0]);}
static TA_RetCode sb_CDL3INSIDE(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_CDL3INSIDE_BatchState((struct TA_CDL3INSIDE_State*)st,s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static TA_RetCode sf_CDL3INSIDE(void**st){return TA_CDL3INSIDE_StateFree((struct TA_CDL3INSIDE_State**)st);}
static TA_RetCode ss_CDL3INSIDE(void*st,FILE*f){return TA_CDL3INSIDE_StateSave((struct TA_CDL3INSIDE_State*)st,f);}
static TA_RetCode sl_CDL3INSIDE(void**st,FILE*f){return TA_CDL3INSIDE_StateLoad((struct TA_CDL3INSIDE_State**)st,f);}
static TA_RetCode b_CDL3LINESTRIKE(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_CDL3LINESTRIKE(s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static TA_RetCode f_CDL3LINESTRIKE(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_CDL3LINESTRIKE(s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static int l_CDL3LINESTRIKE(const double*o){return TA_CDL3LINESTRIKE_Lookback();}
static TA_RetCode si_CDL3LINESTRIKE(void**st,const double*o){return TA_CDL3LINESTRIKE_StateInit((struct TA_CDL3LINESTRIKE_State**)st);}
static TA_RetCode st_CDL3LINESTRIKE(void*st,const double*p,void*const*q){return TA_CDL3LINESTRIKE_State((struct TA_CDL3LINESTRIKE_State*)st, p[0], p[1], p[2], p[3], (int*)q[0]);}
static TA_RetCode sb_CDL3LINESTRIKE(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_CDL3LINESTRIKE_BatchState((struct TA_CDL3LINESTRIKE_State*)st,s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static TA_RetCode sf_CDL3LINESTRIKE(void**st){return TA_CDL3LINESTRIKE_StateFree((struct TA_CDL3LINESTRIKE_State**)st);}
static TA_RetCode ss_CDL3LINESTRIKE(void*st,FILE*f){return TA_CDL3LINESTRIKE_StateSave((struct TA_CDL3LINESTRIKE_State*)st,f);}
static TA_RetCode sl_CDL3LINESTRIKE(void**st,FILE*f){return TA_CDL3LINESTRIKE_StateLoad((struct TA_CDL3LINESTRIKE_State**)st,f);}
static TA_RetCode b_CDL3OUTSIDE(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_CDL3OUTSIDE(s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static TA_RetCode f_CDL3OUTSIDE(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_CDL3OUTSIDE(s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static int l_CDL3OUTSIDE(const double*o){return TA_CDL3OUTSIDE_Lookback();}
static TA_RetCode si_CDL3OUTSIDE(void**st,const double*o){return TA_CDL3OUTSIDE_StateInit((struct TA_CDL3OUTSIDE_State**)st);}
static TA_RetCode st_CDL3OUTSIDE(void*st,const double*p,void*const*q){return TA_CDL3OUTSIDE_State((struct TA_CDL3OUTSIDE_State*)st, p[0], p[1], p[2], p[3], (int*)q[0]);}
static TA_RetCode sb_CDL3OUTSIDE(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_CDL3OUTSIDE_BatchState((struct TA_CDL3OUTSIDE_State*)st,s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static TA_RetCode sf_CDL3OUTSIDE(void**st){return TA_CDL3OUTSIDE_StateFree((struct TA_CDL3OUTSIDE_State**)st);}
static TA_RetCode ss_CDL3OUTSIDE(void*st,FILE*f){return TA_CDL3OUTSIDE_StateSave((struct TA_CDL3OUTSIDE_State*)st,f);}
static TA_RetCode sl_CDL3OUTSIDE(void**st,FILE*f){return TA_CDL3OUTSIDE_StateLoad((struct TA_CDL3OUTSIDE_State**)st,f);}
static TA_RetCode b_CDL3STARSINSOUTH(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_CDL3STARSINSOUTH(s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static TA_RetCode f_CDL3STARSINSOUTH(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_CDL3STARSINSOUTH(s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static int l_CDL3STARSINSOUTH(const double*o){return TA_CDL3STARSINSOUTH_Lookback();}
static TA_RetCode si_CDL3STARSINSOUTH(void**st,const double*o){return TA_CDL3STARSINSOUTH_StateInit((struct TA_CDL3STARSINSOUTH_State**)st);}
static TA_RetCode st_CDL3STARSINSOUTH(void*st,const double*p,void*const*q){return TA_CDL3STARSINSOUTH_State((struct TA_CDL3STARSINSOUTH_State*)st, p[0], p[1], p[2], p[3], (int*)q[0]);}
static TA_RetCode sb_CDL3STARSINSOUTH(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_CDL3STARSINSOUTH_BatchState((struct TA_CDL3STARSINSOUTH_State*)st,s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static TA_RetCode sf_CDL3STARSINSOUTH(void**st){return TA_CDL3STARSINSOUTH_StateFree((struct TA_CDL3STARSINSOUTH_State**)st);}
static TA_RetCode ss_CDL3STARSINSOUTH(void*st,FILE*f){return TA_CDL3STARSINSOUTH_StateSave((struct TA_CDL3STARSINSOUTH_State*)st,f);}
static TA_RetCode sl_CDL3STARSINSOUTH(void**st,FILE*f){return TA_CDL3STARSINSOUTH_StateLoad((struct TA_CDL3STARSINSOUTH_State**)st,f);}
static TA_RetCode b_CDL3WHITESOLDIERS(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_CDL3WHITESOLDIERS(s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static TA_RetCode f_CDL3WHITESOLDIERS(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_CDL3WHITESOLDIERS(s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static int l_CDL3WHITESOLDIERS(const double*o){return TA_CDL3WHITESOLDIERS_Lookback();}
static TA_RetCode si_CDL3WHITESOLDIERS(void**st,const double*o){return TA_CDL3WHITESOLDIERS_StateInit((struct TA_CDL3WHITESOLDIERS_State**)st);}
static TA_RetCode st_CDL3WHITESOLDIERS(void*st,const double*p,void*const*q){return TA_CDL3WHITESOLDIERS_State((struct TA_CDL3WHITESOLDIERS_State*)st, p[0], p[1], p[2], p[3], (int*)q[0]);}
static TA_RetCode sb_CDL3WHITESOLDIERS(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_CDL3WHITESOLDIERS_BatchState((struct TA_CDL3WHITESOLDIERS_State*)st,s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static TA_RetCode sf_CDL3WHITESOLDIERS(void**st){return TA_CDL3WHITESOLDIERS_StateFree((struct TA_CDL3WHITESOLDIERS_State**)st);}
static TA_RetCode ss_CDL3WHITESOLDIERS(void*st,FILE*f){return TA_CDL3WHITESOLDIERS_StateSave((struct TA_CDL3WHITESOLDIERS_State*)st,f);}
static TA_RetCode sl_CDL3WHITESOLDIERS(void**st,FILE*f){return TA_CDL3WHITESOLDIERS_StateLoad((struct TA_CDL3WHITESOLDIERS_State**)st,f);}
static TA_RetCode b_CDLABANDONEDBABY(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_CDLABANDONEDBABY(s,e, p[0], p[1], p[2], p[3], o[0],b,n, (int*)q[0]);}
static TA_RetCode f_CDLABANDONEDBABY(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_CDLABANDONEDBABY(s,e, p[0], p[1], p[2], p[3], o[0],b,n, (int*)q[0]);}
static int l_CDLABANDONEDBABY(const double*o){return TA_CDLABANDONEDBABY_Lookback(o[0]);}
static TA_RetCode si_CDLABANDONEDBABY(void**st,const double*o){return TA_CDLABANDONEDBABY_StateInit((struct TA_CDLABANDONEDBABY_State**)st, o[0]);}
static TA_RetCode st_CDLABANDONEDBABY(void*st,const double*p,void*const*q){return TA_CDLABANDONEDBABY_State((struct TA_CDLABANDONEDBABY_State*)st, p[0], p[1], p[2], p[3], (int*)q[0]);}
static TA_RetCode sb_CDLABANDONEDBABY(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_CDLABANDONEDBABY_BatchState((struct TA_CDLABANDONEDBABY_State*)st,s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static TA_RetCode sf_CDLABANDONEDBABY(void**st){return TA_CDLABANDONEDBABY_StateFree((struct TA_CDLABANDONEDBABY_State**)st);}
static TA_RetCode ss_CDLABANDONEDBABY(void*st,FILE*f){return TA_CDLABANDONEDBABY_StateSave((struct TA_CDLABANDONEDBABY_State*)st,f);}
static TA_RetCode sl_CDLABANDONEDBABY(void**st,FILE*f){return TA_CDLABANDONEDBABY_StateLoad((struct TA_CDLABANDONEDBABY_State**)st,f);}
static TA_RetCode b_CDLADVANCEBLOCK(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_CDLADVANCEBLOCK(s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static TA_RetCode f_CDLADVANCEBLOCK(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_CDLADVANCEBLOCK(s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static int l_CDLADVANCEBLOCK(const double*o){return TA_CDLADVANCEBLOCK_Lookback();}
static TA_RetCode si_CDLADVANCEBLOCK(void**st,const double*o){return TA_CDLADVANCEBLOCK_StateInit((struct TA_CDLADVANCEBLOCK_State**)st);}
static TA_RetCode st_CDLADVANCEBLOCK(void*st,const double*p,void*const*q){return TA_CDLADVANCEBLOCK_State((struct TA_CDLADVANCEBLOCK_State*)st, p[0], p[1], p[2], p[3], (int*)q[0]);}
static TA_RetCode sb_CDLADVANCEBLOCK(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_CDLADVANCEBLOCK_BatchState((struct TA_CDLADVANCEBLOCK_State*)st,s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static TA_RetCode sf_CDLADVANCEBLOCK(void**st){return TA_CDLADVANCEBLOCK_StateFree((struct TA_CDLADVANCEBLOCK_State**)st);}
static TA_RetCode ss_CDLADVANCEBLOCK(void*st,FILE*f){return TA_CDLADVANCEBLOCK_StateSave((struct TA_CDLADVANCEBLOCK_State*)st,f);}
static TA_RetCode sl_CDLADVANCEBLOCK(void**st,FILE*f){return TA_CDLADVANCEBLOCK_StateLoad((struct TA_CDLADVANCEBLOCK_State**)st,f);}
static TA_RetCode b_CDLBELTHOLD(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_CDLBELTHOLD(s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static TA_RetCode f_CDLBELTHOLD(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_CDLBELTHOLD(s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static int l_CDLBELTHOLD(const double*o){return TA_CDLBELTHOLD_Lookback();}
static TA_RetCode si_CDLBELTHOLD(void**st,const double*o){return TA_CDLBELTHOLD_StateInit((struct TA_CDLBELTHOLD_State**)st);}
static TA_RetCode st_CDLBELTHOLD(void*st,const double*p,void*const*q){return TA_CDLBELTHOLD_State((struct TA_CDLBELTHOLD_State*)st, p[0], p[1], p[2], p[3], (int*)q[0]);}
static TA_RetCode sb_CDLBELTHOLD(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_CDLBELTHOLD_BatchState((struct TA_CDLBELTHOLD_State*)st,s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static TA_RetCode sf_CDLBELTHOLD(void**st){return TA_CDLBELTHOLD_StateFree((struct TA_CDLBELTHOLD_State**)st);}
static TA_RetCode ss_CDLBELTHOLD(void*st,FILE*f){return TA_CDLBELTHOLD_StateSave((struct TA_CDLBELTHOLD_State*)st,f);}
static TA_RetCode sl_CDLBELTHOLD(void**st,FILE*f){return TA_CDLBELTHOLD_StateLoad((struct TA_CDLBELTHOLD_State**)st,f);}
static TA_RetCode b_CDLBREAKAWAY(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_CDLBREAKAWAY(s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static TA_RetCode f_CDLBREAKAWAY(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_CDLBREAKAWAY(s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static int l_CDLBREAKAWAY(const double*o){return TA_CDLBREAKAWAY_Lookback();}
static TA_RetCode si_CDLBREAKAWAY(void**st,const double*o){return TA_CDLBREAKAWAY_StateInit((struct TA_CDLBREAKAWAY_State**)st);}
static TA_RetCode st_CDLBREAKAWAY(void*st,const double*p,void*const*q){return TA_CDLBREAKAWAY_State((struct TA_CDLBREAKAWAY_State*)st, p[0], p[1], p[2], p[3], (int*)q[0]);}
static TA_RetCode sb_CDLBREAKAWAY(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_CDLBREAKAWAY_BatchState((struct TA_CDLBREAKAWAY_State*)st,s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static TA_RetCode sf_CDLBREAKAWAY(void**st){return TA_CDLBREAKAWAY_StateFree((struct TA_CDLBREAKAWAY_State**)st);}
static TA_RetCode ss_CDLBREAKAWAY(void*st,FILE*f){return TA_CDLBREAKAWAY_StateSave((struct TA_CDLBREAKAWAY_State*)st,f);}
static TA_RetCode sl_CDLBREAKAWAY(void**st,FILE*f){return TA_CDLBREAKAWAY_StateLoad((struct TA_CDLBREAKAWAY_State**)st,f);}
static TA_RetCode b_CDLCLOSINGMARUBOZU(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_CDLCLOSINGMARUBOZU(s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static TA_RetCode f_CDLCLOSINGMARUBOZU(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_CDLCLOSINGMARUBOZU(s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static int l_CDLCLOSINGMARUBOZU(const double*o){return TA_CDLCLOSINGMARUBOZU_Lookback();}
static TA_RetCode si_CDLCLOSINGMARUBOZU(void**st,const double*o){return TA_CDLCLOSINGMARUBOZU_StateInit((struct TA_CDLCLOSINGMARUBOZU_State**)st);}
static TA_RetCode st_CDLCLOSINGMARUBOZU(void*st,const double*p,void*const*q){return TA_CDLCLOSINGMARUBOZU_State((struct TA_CDLCLOSINGMARUBOZU_State*)st, p[0], p[1], p[2], p[3], (int*)q[0]);}
static TA_RetCode sb_CDLCLOSINGMARUBOZU(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_CDLCLOSINGMARUBOZU_BatchState((struct TA_CDLCLOSINGMARUBOZU_State*)st,s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static TA_RetCode sf_CDLCLOSINGMARUBOZU(void**st){return TA_CDLCLOSINGMARUBOZU_StateFree((struct TA_CDLCLOSINGMARUBOZU_State**)st);}
static TA_RetCode ss_CDLCLOSINGMARUBOZU(void*st,FILE*f){return TA_CDLCLOSINGMARUBOZU_StateSave((struct TA_CDLCLOSINGMARUBOZU_State*)st,f);}
static TA_RetCode sl_CDLCLOSINGMARUBOZU(void**st,FILE*f){return TA_CDLCLOSINGMARUBOZU_StateLoad((struct TA_CDLCLOSINGMARUBOZU_State**)st,f);}
static TA_RetCode b_CDLCONCEALBABYSWALL(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_CDLCONCEALBABYSWALL(s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static TA_RetCode f_CDLCONCEALBABYSWALL(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_CDLCONCEALBABYSWALL(s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static int l_CDLCONCEALBABYSWALL(const double*o){return TA_CDLCONCEALBABYSWALL_Lookback();}
static TA_RetCode si_CDLCONCEALBABYSWALL(void**st,const double*o){return TA_CDLCONCEALBABYSWALL_StateInit((struct TA_CDLCONCEALBABYSWALL_State**)st);}
static TA_RetCode st_CDLCONCEALBABYSWALL(void*st,const double*p,void*const*q){return TA_CDLCONCEALBABYSWALL_State((struct TA_CDLCONCEALBABYSWALL_State*)st, p[0], p[1], p[2], p[3], (int*)q[0]);}
static TA_RetCode sb_CDLCONCEALBABYSWALL(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_CDLCONCEALBABYSWALL_BatchState((struct TA_CDLCONCEALBABYSWALL_State*)st,s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static TA_RetCode sf_CDLCONCEALBABYSWALL(void**st){return TA_CDLCONCEALBABYSWALL_StateFree((struct TA_CDLCONCEALBABYSWALL_State**)st);}
static TA_RetCode ss_CDLCONCEALBABYSWALL(void*st,FILE*f){return TA_CDLCONCEALBABYSWALL_StateSave((struct TA_CDLCONCEALBABYSWALL_State*)st,f);}
static TA_RetCode sl_CDLCONCEALBABYSWALL(void**st,FILE*f){return TA_CDLCONCEALBABYSWALL_StateLoad((struct TA_CDLCONCEALBABYSWALL_State**)st,f);}
static TA_RetCode b_CDLCOUNTERATTACK(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_CDLCOUNTERATTACK(s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static TA_RetCode f_CDLCOUNTERATTACK(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_CDLCOUNTERATTACK(s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static int l_CDLCOUNTERATTACK(const double*o){return TA_CDLCOUNTERATTACK_Lookback();}
static TA_RetCode si_CDLCOUNTERATTACK(void**st,const double*o){return TA_CDLCOUNTERATTACK_StateInit((struct TA_CDLCOUNTERATTACK_State**)st);}
static TA_RetCode st_CDLCOUNTERATTACK(void*st,const double*p,void*const*q){return TA_CDLCOUNTERATTACK_State((struct TA_CDLCOUNTERATTACK_State*)st, p[0], p[1], p[2], p[3], (int*)q[0]);}
static TA_RetCode sb_CDLCOUNTERATTACK(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_CDLCOUNTERATTACK_BatchState((struct TA_CDLCOUNTERATTACK_State*)st,s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static TA_RetCode sf_CDLCOUNTERATTACK(void**st){return TA_CDLCOUNTERATTACK_StateFree((struct TA_CDLCOUNTERATTACK_State**)st);}
static TA_RetCode ss_CDLCOUNTERATTACK(void*st,FILE*f){return TA_CDLCOUNTERATTACK_StateSave((struct TA_CDLCOUNTERATTACK_State*)st,f);}
static TA_RetCode sl_CDLCOUNTERATTACK(void**st,FILE*f){return TA_CDLCOUNTERATTACK_StateLoad((struct TA_CDLCOUNTERATTACK_State**)st,f);}
static TA_RetCode b_CDLDARKCLOUDCOVER(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_CDLDARKCLOUDCOVER(s,e, p[0], p[1], p[2], p[3], o[0],b,n, (int*)q[0]);}
static TA_RetCode f_CDLDARKCLOUDCOVER(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_CDLDARKCLOUDCOVER(s,e, p[0], p[1], p[2], p[3], o[0],b,n, (int*)q[0]);}
static int l_CDLDARKCLOUDCOVER(const double*o){return TA_CDLDARKCLOUDCOVER_Lookback(o[0]);}
static TA_RetCode si_CDLDARKCLOUDCOVER(void**st,const double*o){return TA_CDLDARKCLOUDCOVER_StateInit((struct TA_CDLDARKCLOUDCOVER_State**)st, o[0]);}
static TA_RetCode st_CDLDARKCLOUDCOVER(void*st,const double*p,void*const*q){return TA_CDLDARKCLOUDCOVER_State((struct TA_CDLDARKCLOUDCOVER_State*)st, p[0], p[1], p[2], p[3], (int*)q[0]);}
static TA_RetCode sb_CDLDARKCLOUDCOVER(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_CDLDARKCLOUDCOVER_BatchState((struct TA_CDLDARKCLOUDCOVER_State*)st,s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static TA_RetCode sf_CDLDARKCLOUDCOVER(void**st){return TA_CDLDARKCLOUDCOVER_StateFree((struct TA_CDLDARKCLOUDCOVER_State**)st);}
static TA_RetCode ss_CDLDARKCLOUDCOVER(void*st,FILE*f){return TA_CDLDARKCLOUDCOVER_StateSave((struct TA_CDLDARKCLOUDCOVER_State*)st,f);}
static TA_RetCode sl_CDLDARKCLOUDCOVER(void**st,FILE*f){return TA_CDLDARKCLOUDCOVER_StateLoad((struct TA_CDLDARKCLOUDCOVER_State**)st,f);}
static TA_RetCode b_CDLDOJI(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_CDLDOJI(s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static TA_RetCode f_CDLDOJI(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_CDLDOJI(s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static int l_CDLDOJI(const double*o){return TA_CDLDOJI_Lookback();}
static TA_RetCode si_CDLDOJI(void**st,const double*o){return TA_CDLDOJI_StateInit((struct TA_CDLDOJI_State**)st);}
static TA_RetCode st_CDLDOJI(void*st,const double*p,void*const*q){return TA_CDLDOJI_State((struct TA_CDLDOJI_State*)st, p[0], p[1], p[2], p[3], (int*)q[0]);}
static TA_RetCode sb_CDLDOJI(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_CDLDOJI_BatchState((struct TA_CDLDOJI_State*)st,s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static TA_RetCode sf_CDLDOJI(void**st){return TA_CDLDOJI_StateFree((struct TA_CDLDOJI_State**)st);}
static TA_RetCode ss_CDLDOJI(void*st,FILE*f){return TA_CDLDOJI_StateSave((struct TA_CDLDOJI_State*)st,f);}
static TA_RetCode sl_CDLDOJI(void**st,FILE*f){return TA_CDLDOJI_StateLoad((struct TA_CDLDOJI_State**)st,f);}
static TA_RetCode b_CDLDOJISTAR(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_CDLDOJISTAR(s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static TA_RetCode f_CDLDOJISTAR(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_CDLDOJISTAR(s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static int l_CDLDOJISTAR(const double*o){return TA_CDLDOJISTAR_Lookback();}
static TA_RetCode si_CDLDOJISTAR(void**st,const double*o){return TA_CDLDOJISTAR_StateInit((struct TA_CDLDOJISTAR_State**)st);}
static TA_RetCode st_CDLDOJISTAR(void*st,const double*p,void*const*q){return TA_CDLDOJISTAR_State((struct TA_CDLDOJISTAR_State*)st, p[0], p[1], p[2], p[3], (int*)q[0]);}
static TA_RetCode sb_CDLDOJISTAR(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_CDLDOJISTAR_BatchState((struct TA_CDLDOJISTAR_State*)st,s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static TA_RetCode sf_CDLDOJISTAR(void**st){return TA_CDLDOJISTAR_StateFree((struct TA_CDLDOJISTAR_State**)st);}
static TA_RetCode ss_CDLDOJISTAR(void*st,FILE*f){return TA_CDLDOJISTAR_StateSave((struct TA_CDLDOJISTAR_State*)st,f);}
static TA_RetCode sl_CDLDOJISTAR(void**st,FILE*f){return TA_CDLDOJISTAR_StateLoad((struct TA_CDLDOJISTAR_State**)st,f);}
static TA_RetCode b_CDLDRAGONFLYDOJI(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_CDLDRAGONFLYDOJI(s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static TA_RetCode f_CDLDRAGONFLYDOJI(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_CDLDRAGONFLYDOJI(s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static int l_CDLDRAGONFLYDOJI(const double*o){return TA_CDLDRAGONFLYDOJI_Lookback();}
static TA_RetCode si_CDLDRAGONFLYDOJI(void**st,const double*o){return TA_CDLDRAGONFLYDOJI_StateInit((struct TA_CDLDRAGONFLYDOJI_State**)st);}
static TA_RetCode st_CDLDRAGONFLYDOJI(void*st,const double*p,void*const*q){return TA_CDLDRAGONFLYDOJI_State((struct TA_CDLDRAGONFLYDOJI_State*)st, p[0], p[1], p[2], p[3], (int*)q[0]);}
static TA_RetCode sb_CDLDRAGONFLYDOJI(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_CDLDRAGONFLYDOJI_BatchState((struct TA_CDLDRAGONFLYDOJI_State*)st,s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static TA_RetCode sf_CDLDRAGONFLYDOJI(void**st){return TA_CDLDRAGONFLYDOJI_StateFree((struct TA_CDLDRAGONFLYDOJI_State**)st);}
static TA_RetCode ss_CDLDRAGONFLYDOJI(void*st,FILE*f){return TA_CDLDRAGONFLYDOJI_StateSave((struct TA_CDLDRAGONFLYDOJI_State*)st,f);}
static TA_RetCode sl_CDLDRAGONFLYDOJI(void**st,FILE*f){return TA_CDLDRAGONFLYDOJI_StateLoad((struct TA_CDLDRAGONFLYDOJI_State**)st,f);}
static TA_RetCode b_CDLENGULFING(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_CDLENGULFING(s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static TA_RetCode f_CDLENGULFING(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_CDLENGULFING(s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static int l_CDLENGULFING(const double*o){return TA_CDLENGULFING_Lookback();}
static TA_RetCode si_CDLENGULFING(void**st,const double*o){return TA_CDLENGULFING_StateInit((struct TA_CDLENGULFING_State**)st);}
static TA_RetCode st_CDLENGULFING(void*st,const double*p,void*const*q){return TA_CDLENGULFING_State((struct TA_CDLENGULFING_State*)st, p[0], p[1], p[2], p[3], (int*)q[0]);}
static TA_RetCode sb_CDLENGULFING(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_CDLENGULFING_BatchState((struct TA_CDLENGULFING_State*)st,s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static TA_RetCode sf_CDLENGULFING(void**st){return TA_CDLENGULFING_StateFree((struct TA_CDLENGULFING_State**)st);}
static TA_RetCode ss_CDLENGULFING(void*st,FILE*f){return TA_CDLENGULFING_StateSave((struct TA_CDLENGULFING_State*)st,f);}
static TA_RetCode sl_CDLENGULFING(void**st,FILE*f){return TA_CDLENGULFING_StateLoad((struct TA_CDLENGULFING_State**)st,f);}
static TA_RetCode b_CDLEVENINGDOJISTAR(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_CDLEVENINGDOJISTAR(s,e, p[0], p[1], p[2], p[3], o[0],b,n, (int*)q[0]);}
static TA_RetCode f_CDLEVENINGDOJISTAR(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_CDLEVENINGDOJISTAR(s,e, p[0], p[1], p[2], p[3], o[0],b,n, (int*)q[0]);}
static int l_CDLEVENINGDOJISTAR(const double*o){return TA_CDLEVENINGDOJISTAR_Lookback(o[0]);}
static TA_RetCode si_CDLEVENINGDOJISTAR(void**st,const double*o){return TA_CDLEVENINGDOJISTAR_StateInit((struct TA_CDLEVENINGDOJISTAR_State**)st, o[0]);}
static TA_RetCode st_CDLEVENINGDOJISTAR(void*st,const double*p,void*const*q){return TA_CDLEVENINGDOJISTAR_State((struct TA_CDLEVENINGDOJISTAR_State*)st, p[0], p[1], p[2], p[3], (int*)q[0]);}
static TA_RetCode sb_CDLEVENINGDOJISTAR(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_CDLEVENINGDOJISTAR_BatchState((struct TA_CDLEVENINGDOJISTAR_State*)st,s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static TA_RetCode sf_CDLEVENINGDOJISTAR(void**st){return TA_CDLEVENINGDOJISTAR_StateFree((struct TA_CDLEVENINGDOJISTAR_State**)st);}
static TA_RetCode ss_CDLEVENINGDOJISTAR(void*st,FILE*f){return TA_CDLEVENINGDOJISTAR_StateSave((struct TA_CDLEVENINGDOJISTAR_State*)st,f);}
static TA_RetCode sl_CDLEVENINGDOJISTAR(void**st,FILE*f){return TA_CDLEVENINGDOJISTAR_StateLoad((struct TA_CDLEVENINGDOJISTAR_State**)st,f);}
static TA_RetCode b_CDLEVENINGSTAR(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_CDLEVENINGSTAR(s,e, p[0], p[1], p[2], p[3], o[0],b,n, (int*)q[0]);}
static TA_RetCode f_CDLEVENINGSTAR(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_CDLEVENINGSTAR(s,e, p[0], p[1], p[2], p[3], o[0],b,n, (int*)q[0]);}
static int l_CDLEVENINGSTAR(const double*o){return TA_CDLEVENINGSTAR_Lookback(o[0]);}
static TA_RetCode si_CDLEVENINGSTAR(void**st,const double*o){return TA_CDLEVENINGSTAR_StateInit((struct TA_CDLEVENINGSTAR_State**)st, o[0]);}
static TA_RetCode st_CDLEVENINGSTAR(void*st,const double*p,void*const*q){return TA_CDLEVENINGSTAR_State((struct TA_CDLEVENINGSTAR_State*)st, p[0], p[1], p[2], p[3], (int*)q[0]);}
static TA_RetCode sb_CDLEVENINGSTAR(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_CDLEVENINGSTAR_BatchState((struct TA_CDLEVENINGSTAR_State*)st,s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static TA_RetCode sf_CDLEVENINGSTAR(void**st){return TA_CDLEVENINGSTAR_StateFree((struct TA_CDLEVENINGSTAR_State**)st);}
static TA_RetCode ss_CDLEVENINGSTAR(void*st,FILE*f){return TA_CDLEVENINGSTAR_StateSave((struct TA_CDLEVENINGSTAR_State*)st,f);}
static TA_RetCode sl_CDLEVENINGSTAR(void**st,FILE*f){return TA_CDLEVENINGSTAR_StateLoad((struct TA_CDLEVENINGSTAR_State**)st,f);}
static TA_RetCode b_CDLGAPSIDESIDEWHITE(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_CDLGAPSIDESIDEWHITE(s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static TA_RetCode f_CDLGAPSIDESIDEWHITE(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_CDLGAPSIDESIDEWHITE(s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static int l_CDLGAPSIDESIDEWHITE(const double*o){return TA_CDLGAPSIDESIDEWHITE_Lookback();}
static TA_RetCode si_CDLGAPSIDESIDEWHITE(void**st,const double*o){return TA_CDLGAPSIDESIDEWHITE_StateInit((struct TA_CDLGAPSIDESIDEWHITE_State**)st);}
static TA_RetCode st_CDLGAPSIDESIDEWHITE(void*st,const double*p,void*const*q){return TA_CDLGAPSIDESIDEWHITE_State((struct TA_CDLGAPSIDESIDEWHITE_State*)st, p[0], p[1], p[2], p[3], (int*)q[0]);}
static TA_RetCode sb_CDLGAPSIDESIDEWHITE(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_CDLGAPSIDESIDEWHITE_BatchState((struct TA_CDLGAPSIDESIDEWHITE_State*)st,s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static TA_RetCode sf_CDLGAPSIDESIDEWHITE(void**st){return TA_CDLGAPSIDESIDEWHITE_StateFree((struct TA_CDLGAPSIDESIDEWHITE_State**)st);}
static TA_RetCode ss_CDLGAPSIDESIDEWHITE(void*st,FILE*f){return TA_CDLGAPSIDESIDEWHITE_StateSave((struct TA_CDLGAPSIDESIDEWHITE_State*)st,f);}
static TA_RetCode sl_CDLGAPSIDESIDEWHITE(void**st,FILE*f){return TA_CDLGAPSIDESIDEWHITE_StateLoad((struct TA_CDLGAPSIDESIDEWHITE_State**)st,f);}
static TA_RetCode b_CDLGRAVESTONEDOJI(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_CDLGRAVESTONEDOJI(s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static TA_RetCode f_CDLGRAVESTONEDOJI(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_CDLGRAVESTONEDOJI(s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static int l_CDLGRAVESTONEDOJI(const double*o){return TA_CDLGRAVESTONEDOJI_Lookback();}
static TA_RetCode si_CDLGRAVESTONEDOJI(void**st,const double*o){return TA_CDLGRAVESTONEDOJI_StateInit((struct TA_CDLGRAVESTONEDOJI_State**)st);}
static TA_RetCode st_CDLGRAVESTONEDOJI(void*st,const double*p,void*const*q){return TA_CDLGRAVESTONEDOJI_State((struct TA_CDLGRAVESTONEDOJI_State*)st, p[0], p[1], p[2], p[3], (int*)q[0]);}
static TA_RetCode sb_CDLGRAVESTONEDOJI(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_CDLGRAVESTONEDOJI_BatchState((struct TA_CDLGRAVESTONEDOJI_State*)st,s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static TA_RetCode sf_CDLGRAVESTONEDOJI(void**st){return TA_CDLGRAVESTONEDOJI_StateFree((struct TA_CDLGRAVESTONEDOJI_State**)st);}
static TA_RetCode ss_CDLGRAVESTONEDOJI(void*st,FILE*f){return TA_CDLGRAVESTONEDOJI_StateSave((struct TA_CDLGRAVESTONEDOJI_State*)st,f);}
static TA_RetCode sl_CDLGRAVESTONEDOJI(void**st,FILE*f){return TA_CDLGRAVESTONEDOJI_StateLoad((struct TA_CDLGRAVESTONEDOJI_State**)st,f);}
static TA_RetCode b_CDLHAMMER(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_CDLHAMMER(s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static TA_RetCode f_CDLHAMMER(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_CDLHAMMER(s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static int l_CDLHAMMER(const double*o){return TA_CDLHAMMER_Lookback();}
static TA_RetCode si_CDLHAMMER(void**st,const double*o){return TA_CDLHAMMER_StateInit((struct TA_CDLHAMMER_State**)st);}
static TA_RetCode st_CDLHAMMER(void*st,const double*p,void*const*q){return TA_CDLHAMMER_State((struct TA_CDLHAMMER_State*)st, p[0], p[1], p[2], p[3], (int*)q[0]);}
static TA_RetCode sb_CDLHAMMER(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_CDLHAMMER_BatchState((struct TA_CDLHAMMER_State*)st,s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static TA_RetCode sf_CDLHAMMER(void**st){return TA_CDLHAMMER_StateFree((struct TA_CDLHAMMER_State**)st);}
static TA_RetCode ss_CDLHAMMER(void*st,FILE*f){return TA_CDLHAMMER_StateSave((struct TA_CDLHAMMER_State*)st,f);}
static TA_RetCode sl_CDLHAMMER(void**st,FILE*f){return TA_CDLHAMMER_StateLoad((struct TA_CDLHAMMER_State**)st,f);}
static TA_RetCode b_CDLHANGINGMAN(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_CDLHANGINGMAN(s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static TA_RetCode f_CDLHANGINGMAN(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_CDLHANGINGMAN(s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static int l_CDLHANGINGMAN(const double*o){return TA_CDLHANGINGMAN_Lookback();}
static TA_RetCode si_CDLHANGINGMAN(void**st,const double*o){return TA_CDLHANGINGMAN_StateInit((struct TA_CDLHANGINGMAN_State**)st);}
static TA_RetCode st_CDLHANGINGMAN(void*st,const double*p,void*const*q){return TA_CDLHANGINGMAN_State((struct TA_CDLHANGINGMAN_State*)st, p[0], p[1], p[2], p[3], (int*)q[0]);}
static TA_RetCode sb_CDLHANGINGMAN(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_CDLHANGINGMAN_BatchState((struct TA_CDLHANGINGMAN_State*)st,s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static TA_RetCode sf_CDLHANGINGMAN(void**st){return TA_CDLHANGINGMAN_StateFree((struct TA_CDLHANGINGMAN_State**)st);}
static TA_RetCode ss_CDLHANGINGMAN(void*st,FILE*f){return TA_CDLHANGINGMAN_StateSave((struct TA_CDLHANGINGMAN_State*)st,f);}
static TA_RetCode sl_CDLHANGINGMAN(void**st,FILE*f){return TA_CDLHANGINGMAN_StateLoad((struct TA_CDLHANGINGMAN_State**)st,f);}
static TA_RetCode b_CDLHARAMI(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_CDLHARAMI(s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static TA_RetCode f_CDLHARAMI(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_CDLHARAMI(s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static int l_CDLHARAMI(const double*o){return TA_CDLHARAMI_Lookback();}
static TA_RetCode si_CDLHARAMI(void**st,const double*o){return TA_CDLHARAMI_StateInit((struct TA_CDLHARAMI_State**)st);}
static TA_RetCode st_CDLHARAMI(void*st,const double*p,void*const*q){return TA_CDLHARAMI_State((struct TA_CDLHARAMI_State*)st, p[0], p[1], p[2], p[3], (int*)q[0]);}
static TA_RetCode sb_CDLHARAMI(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_CDLHARAMI_BatchState((struct TA_CDLHARAMI_State*)st,s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static TA_RetCode sf_CDLHARAMI(void**st){return TA_CDLHARAMI_StateFree((struct TA_CDLHARAMI_State**)st);}
static TA_RetCode ss_CDLHARAMI(void*st,FILE*f){return TA_CDLHARAMI_StateSave((struct TA_CDLHARAMI_State*)st,f);}
static TA_RetCode sl_CDLHARAMI(void**st,FILE*f){return TA_CDLHARAMI_StateLoad((struct TA_CDLHARAMI_State**)st,f);}
static TA_RetCode b_CDLHARAMICROSS(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_CDLHARAMICROSS(s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static TA_RetCode f_CDLHARAMICROSS(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_CDLHARAMICROSS(s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static int l_CDLHARAMICROSS(const double*o){return TA_CDLHARAMICROSS_Lookback();}
static TA_RetCode si_CDLHARAMICROSS(void**st,const double*o){return TA_CDLHARAMICROSS_StateInit((struct TA_CDLHARAMICROSS_State**)st);}
static TA_RetCode st_CDLHARAMICROSS(void*st,const double*p,void*const*q){return TA_CDLHARAMICROSS_State((struct TA_CDLHARAMICROSS_State*)st, p[0], p[1], p[2], p[3], (int*)q[0]);}
static TA_RetCode sb_CDLHARAMICROSS(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_CDLHARAMICROSS_BatchState((struct TA_CDLHARAMICROSS_State*)st,s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static TA_RetCode sf_CDLHARAMICROSS(void**st){return TA_CDLHARAMICROSS_StateFree((struct TA_CDLHARAMICROSS_State**)st);}
static TA_RetCode ss_CDLHARAMICROSS(void*st,FILE*f){return TA_CDLHARAMICROSS_StateSave((struct TA_CDLHARAMICROSS_State*)st,f);}
static TA_RetCode sl_CDLHARAMICROSS(void**st,FILE*f){return TA_CDLHARAMICROSS_StateLoad((struct TA_CDLHARAMICROSS_State**)st,f);}
static TA_RetCode b_CDLHIGHWAVE(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_CDLHIGHWAVE(s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static TA_RetCode f_CDLHIGHWAVE(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_CDLHIGHWAVE(s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static int l_CDLHIGHWAVE(const double*o){return TA_CDLHIGHWAVE_Lookback();}
static TA_RetCode si_CDLHIGHWAVE(void**st,const double*o){return TA_CDLHIGHWAVE_StateInit((struct TA_CDLHIGHWAVE_State**)st);}
static TA_RetCode st_CDLHIGHWAVE(void*st,const double*p,void*const*q){return TA_CDLHIGHWAVE_State((struct TA_CDLHIGHWAVE_State*)st, p[0], p[1], p[2], p[3], (int*)q[0]);}
static TA_RetCode sb_CDLHIGHWAVE(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_CDLHIGHWAVE_BatchState((struct TA_CDLHIGHWAVE_State*)st,s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static TA_RetCode sf_CDLHIGHWAVE(void**st){return TA_CDLHIGHWAVE_StateFree((struct TA_CDLHIGHWAVE_State**)st);}
static TA_RetCode ss_CDLHIGHWAVE(void*st,FILE*f){return TA_CDLHIGHWAVE_StateSave((struct TA_CDLHIGHWAVE_State*)st,f);}
static TA_RetCode sl_CDLHIGHWAVE(void**st,FILE*f){return TA_CDLHIGHWAVE_StateLoad((struct TA_CDLHIGHWAVE_State**)st,f);}
static TA_RetCode b_CDLHIKKAKE(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_CDLHIKKAKE(s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static TA_RetCode f_CDLHIKKAKE(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_CDLHIKKAKE(s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static int l_CDLHIKKAKE(const double*o){return TA_CDLHIKKAKE_Lookback();}
static TA_RetCode si_CDLHIKKAKE(void**st,const double*o){return TA_CDLHIKKAKE_StateInit((struct TA_CDLHIKKAKE_State**)st);}
static TA_RetCode st_CDLHIKKAKE(void*st,const double*p,void*const*q){return TA_CDLHIKKAKE_State((struct TA_CDLHIKKAKE_State*)st, p[0], p[1], p[2], p[3], (int*)q[0]);}
static TA_RetCode sb_CDLHIKKAKE(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_CDLHIKKAKE_BatchState((struct TA_CDLHIKKAKE_State*)st,s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static TA_RetCode sf_CDLHIKKAKE(void**st){return TA_CDLHIKKAKE_StateFree((struct TA_CDLHIKKAKE_State**)st);}
static TA_RetCode ss_CDLHIKKAKE(void*st,FILE*f){return TA_CDLHIKKAKE_StateSave((struct TA_CDLHIKKAKE_State*)st,f);}
static TA_RetCode sl_CDLHIKKAKE(void**st,FILE*f){return TA_CDLHIKKAKE_StateLoad((struct TA_CDLHIKKAKE_State**)st,f);}
static TA_RetCode b_CDLHIKKAKEMOD(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_CDLHIKKAKEMOD(s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static TA_RetCode f_CDLHIKKAKEMOD(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_CDLHIKKAKEMOD(s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static int l_CDLHIKKAKEMOD(const double*o){return TA_CDLHIKKAKEMOD_Lookback();}
static TA_RetCode si_CDLHIKKAKEMOD(void**st,const double*o){return TA_CDLHIKKAKEMOD_StateInit((struct TA_CDLHIKKAKEMOD_State**)st);}
static TA_RetCode st_CDLHIKKAKEMOD(void*st,const double*p,void*const*q){return TA_CDLHIKKAKEMOD_State((struct TA_CDLHIKKAKEMOD_State*)st, p[0], p[1], p[2], p[3], (int*)q[0]);}
static TA_RetCode sb_CDLHIKKAKEMOD(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_CDLHIKKAKEMOD_BatchState((struct TA_CDLHIKKAKEMOD_State*)st,s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static TA_RetCode sf_CDLHIKKAKEMOD(void**st){return TA_CDLHIKKAKEMOD_StateFree((struct TA_CDLHIKKAKEMOD_State**)st);}
static TA_RetCode ss_CDLHIKKAKEMOD(void*st,FILE*f){return TA_CDLHIKKAKEMOD_StateSave((struct TA_CDLHIKKAKEMOD_State*)st,f);}
static TA_RetCode sl_CDLHIKKAKEMOD(void**st,FILE*f){return TA_CDLHIKKAKEMOD_StateLoad((struct TA_CDLHIKKAKEMOD_State**)st,f);}
static TA_RetCode b_CDLHOMINGPIGEON(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_CDLHOMINGPIGEON(s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static TA_RetCode f_CDLHOMINGPIGEON(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_CDLHOMINGPIGEON(s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static int l_CDLHOMINGPIGEON(const double*o){return TA_CDLHOMINGPIGEON_Lookback();}
static TA_RetCode si_CDLHOMINGPIGEON(void**st,const double*o){return TA_CDLHOMINGPIGEON_StateInit((struct TA_CDLHOMINGPIGEON_State**)st);}
static TA_RetCode st_CDLHOMINGPIGEON(void*st,const double*p,void*const*q){return TA_CDLHOMINGPIGEON_State((struct TA_CDLHOMINGPIGEON_State*)st, p[0], p[1], p[2], p[3], (int*)q[0]);}
static TA_RetCode sb_CDLHOMINGPIGEON(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_CDLHOMINGPIGEON_BatchState((struct TA_CDLHOMINGPIGEON_State*)st,s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static TA_RetCode sf_CDLHOMINGPIGEON(void**st){return TA_CDLHOMINGPIGEON_StateFree((struct TA_CDLHOMINGPIGEON_State**)st);}
static TA_RetCode ss_CDLHOMINGPIGEON(void*st,FILE*f){return TA_CDLHOMINGPIGEON_StateSave((struct TA_CDLHOMINGPIGEON_State*)st,f);}
static TA_RetCode sl_CDLHOMINGPIGEON(void**st,FILE*f){return TA_CDLHOMINGPIGEON_StateLoad((struct TA_CDLHOMINGPIGEON_State**)st,f);}
static TA_RetCode b_CDLIDENTICAL3CROWS(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_CDLIDENTICAL3CROWS(s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static TA_RetCode f_CDLIDENTICAL3CROWS(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_CDLIDENTICAL3CROWS(s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static int l_CDLIDENTICAL3CROWS(const double*o){return TA_CDLIDENTICAL3CROWS_Lookback();}
static TA_RetCode si_CDLIDENTICAL3CROWS(void**st,const double*o){return TA_CDLIDENTICAL3CROWS_StateInit((struct TA_CDLIDENTICAL3CROWS_State**)st);}
static TA_RetCode st_CDLIDENTICAL3CROWS(void*st,const double*p,void*const*q){return TA_CDLIDENTICAL3CROWS_State((struct TA_CDLIDENTICAL3CROWS_State*)st, p[0], p[1], p[2], p[3], (int*)q[0]);}
static TA_RetCode sb_CDLIDENTICAL3CROWS(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_CDLIDENTICAL3CROWS_BatchState((struct TA_CDLIDENTICAL3CROWS_State*)st,s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static TA_RetCode sf_CDLIDENTICAL3CROWS(void**st){return TA_CDLIDENTICAL3CROWS_StateFree((struct TA_CDLIDENTICAL3CROWS_State**)st);}
static TA_RetCode ss_CDLIDENTICAL3CROWS(void*st,FILE*f){return TA_CDLIDENTICAL3CROWS_StateSave((struct TA_CDLIDENTICAL3CROWS_State*)st,f);}
static TA_RetCode sl_CDLIDENTICAL3CROWS(void**st,FILE*f){return TA_CDLIDENTICAL3CROWS_StateLoad((struct TA_CDLIDENTICAL3CROWS_State**)st,f);}
static TA_RetCode b_CDLINNECK(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_CDLINNECK(s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static TA_RetCode f_CDLINNECK(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_CDLINNECK(s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static int l_CDLINNECK(const double*o){return TA_CDLINNECK_Lookback();}
static TA_RetCode si_CDLINNECK(void**st,const double*o){return TA_CDLINNECK_StateInit((struct TA_CDLINNECK_State**)st);}
static TA_RetCode st_CDLINNECK(void*st,const double*p,void*const*q){return TA_CDLINNECK_State((struct TA_CDLINNECK_State*)st, p[0], p[1], p[2], p[3], (int*)q[0]);}
static TA_RetCode sb_CDLINNECK(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_CDLINNECK_BatchState((struct TA_CDLINNECK_State*)st,s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static TA_RetCode sf_CDLINNECK(void**st){return TA_CDLINNECK_StateFree((struct TA_CDLINNECK_State**)st);}
static TA_RetCode ss_CDLINNECK(void*st,FILE*f){return TA_CDLINNECK_StateSave((struct TA_CDLINNECK_State*)st,f);}
static TA_RetCode sl_CDLINNECK(void**st,FILE*f){return TA_CDLINNECK_StateLoad((struct TA_CDLINNECK_State**)st,f);}
static TA_RetCode b_CDLINVERTEDHAMMER(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_CDLINVERTEDHAMMER(s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static TA_RetCode f_CDLINVERTEDHAMMER(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_CDLINVERTEDHAMMER(s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static int l_CDLINVERTEDHAMMER(const double*o){return TA_CDLINVERTEDHAMMER_Lookback();}
static TA_RetCode si_CDLINVERTEDHAMMER(void**st,const double*o){return TA_CDLINVERTEDHAMMER_StateInit((struct TA_CDLINVERTEDHAMMER_State**)st);}
static TA_RetCode st_CDLINVERTEDHAMMER(void*st,const double*p,void*const*q){return TA_CDLINVERTEDHAMMER_State((struct TA_CDLINVERTEDHAMMER_State*)st, p[0], p[1], p[2], p[3], (int*)q[0]);}
static TA_RetCode sb_CDLINVERTEDHAMMER(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_CDLINVERTEDHAMMER_BatchState((struct TA_CDLINVERTEDHAMMER_State*)st,s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static TA_RetCode sf_CDLINVERTEDHAMMER(void**st){return TA_CDLINVERTEDHAMMER_StateFree((struct TA_CDLINVERTEDHAMMER_State**)st);}
static TA_RetCode ss_CDLINVERTEDHAMMER(void*st,FILE*f){return TA_CDLINVERTEDHAMMER_StateSave((struct TA_CDLINVERTEDHAMMER_State*)st,f);}
static TA_RetCode sl_CDLINVERTEDHAMMER(void**st,FILE*f){return TA_CDLINVERTEDHAMMER_StateLoad((struct TA_CDLINVERTEDHAMMER_State**)st,f);}
static TA_RetCode b_CDLKICKING(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_CDLKICKING(s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static TA_RetCode f_CDLKICKING(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_CDLKICKING(s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static int l_CDLKICKING(const double*o){return TA_CDLKICKING_Lookback();}
static TA_RetCode si_CDLKICKING(void**st,const double*o){return TA_CDLKICKING_StateInit((struct TA_CDLKICKING_State**)st);}
static TA_RetCode st_CDLKICKING(void*st,const double*p,void*const*q){return TA_CDLKICKING_State((struct TA_CDLKICKING_State*)st, p[0], p[1], p[2], p[3], (int*)q[0]);}
static TA_RetCode sb_CDLKICKING(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_CDLKICKING_BatchState((struct TA_CDLKICKING_State*)st,s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static TA_RetCode sf_CDLKICKING(void**st){return TA_CDLKICKING_StateFree((struct TA_CDLKICKING_State**)st);}
static TA_RetCode ss_CDLKICKING(void*st,FILE*f){return TA_CDLKICKING_StateSave((struct TA_CDLKICKING_State*)st,f);}
static TA_RetCode sl_CDLKICKING(void**st,FILE*f){return TA_CDLKICKING_StateLoad((struct TA_CDLKICKING_State**)st,f);}
static TA_RetCode b_CDLKICKINGBYLENGTH(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_CDLKICKINGBYLENGTH(s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static TA_RetCode f_CDLKICKINGBYLENGTH(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_CDLKICKINGBYLENGTH(s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static int l_CDLKICKINGBYLENGTH(const double*o){return TA_CDLKICKINGBYLENGTH_Lookback();}
static TA_RetCode si_CDLKICKINGBYLENGTH(void**st,const double*o){return TA_CDLKICKINGBYLENGTH_StateInit((struct TA_CDLKICKINGBYLENGTH_State**)st);}
static TA_RetCode st_CDLKICKINGBYLENGTH(void*st,const double*p,void*const*q){return TA_CDLKICKINGBYLENGTH_State((struct TA_CDLKICKINGBYLENGTH_State*)st, p[0], p[1], p[2], p[3], (int*)q[0]);}
static TA_RetCode sb_CDLKICKINGBYLENGTH(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_CDLKICKINGBYLENGTH_BatchState((struct TA_CDLKICKINGBYLENGTH_State*)st,s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static TA_RetCode sf_CDLKICKINGBYLENGTH(void**st){return TA_CDLKICKINGBYLENGTH_StateFree((struct TA_CDLKICKINGBYLENGTH_State**)st);}
static TA_RetCode ss_CDLKICKINGBYLENGTH(void*st,FILE*f){return TA_CDLKICKINGBYLENGTH_StateSave((struct TA_CDLKICKINGBYLENGTH_State*)st,f);}
static TA_RetCode sl_CDLKICKINGBYLENGTH(void**st,FILE*f){return TA_CDLKICKINGBYLENGTH_StateLoad((struct TA_CDLKICKINGBYLENGTH_State**)st,f);}
static TA_RetCode b_CDLLADDERBOTTOM(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_CDLLADDERBOTTOM(s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static TA_RetCode f_CDLLADDERBOTTOM(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_CDLLADDERBOTTOM(s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static int l_CDLLADDERBOTTOM(const double*o){return TA_CDLLADDERBOTTOM_Lookback();}
static TA_RetCode si_CDLLADDERBOTTOM(void**st,const double*o){return TA_CDLLADDERBOTTOM_StateInit((struct TA_CDLLADDERBOTTOM_State**)st);}
static TA_RetCode st_CDLLADDERBOTTOM(void*st,const double*p,void*const*q){return TA_CDLLADDERBOTTOM_State((struct TA_CDLLADDERBOTTOM_State*)st, p[0], p[1], p[2], p[3], (int*)q[0]);}
static TA_RetCode sb_CDLLADDERBOTTOM(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_CDLLADDERBOTTOM_BatchState((struct TA_CDLLADDERBOTTOM_State*)st,s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static TA_RetCode sf_CDLLADDERBOTTOM(void**st){return TA_CDLLADDERBOTTOM_StateFree((struct TA_CDLLADDERBOTTOM_State**)st);}
static TA_RetCode ss_CDLLADDERBOTTOM(void*st,FILE*f){return TA_CDLLADDERBOTTOM_StateSave((struct TA_CDLLADDERBOTTOM_State*)st,f);}
static TA_RetCode sl_CDLLADDERBOTTOM(void**st,FILE*f){return TA_CDLLADDERBOTTOM_StateLoad((struct TA_CDLLADDERBOTTOM_State**)st,f);}
static TA_RetCode b_CDLLONGLEGGEDDOJI(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_CDLLONGLEGGEDDOJI(s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static TA_RetCode f_CDLLONGLEGGEDDOJI(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_CDLLONGLEGGEDDOJI(s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static int l_CDLLONGLEGGEDDOJI(const double*o){return TA_CDLLONGLEGGEDDOJI_Lookback();}
static TA_RetCode si_CDLLONGLEGGEDDOJI(void**st,const double*o){return TA_CDLLONGLEGGEDDOJI_StateInit((struct TA_CDLLONGLEGGEDDOJI_State**)st);}
static TA_RetCode st_CDLLONGLEGGEDDOJI(void*st,const double*p,void*const*q){return TA_CDLLONGLEGGEDDOJI_State((struct TA_CDLLONGLEGGEDDOJI_State*)st, p[0], p[1], p[2], p[3], (int*)q[0]);}
static TA_RetCode sb_CDLLONGLEGGEDDOJI(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_CDLLONGLEGGEDDOJI_BatchState((struct TA_CDLLONGLEGGEDDOJI_State*)st,s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static TA_RetCode sf_CDLLONGLEGGEDDOJI(void**st){return TA_CDLLONGLEGGEDDOJI_StateFree((struct TA_CDLLONGLEGGEDDOJI_State**)st);}
static TA_RetCode ss_CDLLONGLEGGEDDOJI(void*st,FILE*f){return TA_CDLLONGLEGGEDDOJI_StateSave((struct TA_CDLLONGLEGGEDDOJI_State*)st,f);}
static TA_RetCode sl_CDLLONGLEGGEDDOJI(void**st,FILE*f){return TA_CDLLONGLEGGEDDOJI_StateLoad((struct TA_CDLLONGLEGGEDDOJI_State**)st,f);}
static TA_RetCode b_CDLLONGLINE(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_CDLLONGLINE(s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static TA_RetCode f_CDLLONGLINE(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_CDLLONGLINE(s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static int l_CDLLONGLINE(const double*o){return TA_CDLLONGLINE_Lookback();}
static TA_RetCode si_CDLLONGLINE(void**st,const double*o){return TA_CDLLONGLINE_StateInit((struct TA_CDLLONGLINE_State**)st);}
static TA_RetCode st_CDLLONGLINE(void*st,const double*p,void*const*q){return TA_CDLLONGLINE_State((struct TA_CDLLONGLINE_State*)st, p[0], p[1], p[2], p[3], (int*)q[0]);}
static TA_RetCode sb_CDLLONGLINE(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_CDLLONGLINE_BatchState((struct TA_CDLLONGLINE_State*)st,s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static TA_RetCode sf_CDLLONGLINE(void**st){return TA_CDLLONGLINE_StateFree((struct TA_CDLLONGLINE_State**)st);}
static TA_RetCode ss_CDLLONGLINE(void*st,FILE*f){return TA_CDLLONGLINE_StateSave((struct TA_CDLLONGLINE_State*)st,f);}
static TA_RetCode sl_CDLLONGLINE(void**st,FILE*f){return TA_CDLLONGLINE_StateLoad((struct TA_CDLLONGLINE_State**)st,f);}
static TA_RetCode b_CDLMARUBOZU(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_CDLMARUBOZU(s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static TA_RetCode f_CDLMARUBOZU(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_CDLMARUBOZU(s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static int l_CDLMARUBOZU(const double*o){return TA_CDLMARUBOZU_Lookback();}
static TA_RetCode si_CDLMARUBOZU(void**st,const double*o){return TA_CDLMARUBOZU_StateInit((struct TA_CDLMARUBOZU_State**)st);}
static TA_RetCode st_CDLMARUBOZU(void*st,const double*p,void*const*q){return TA_CDLMARUBOZU_State((struct TA_CDLMARUBOZU_State*)st, p[0], p[1], p[2], p[3], (int*)q[0]);}
static TA_RetCode sb_CDLMARUBOZU(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_CDLMARUBOZU_BatchState((struct TA_CDLMARUBOZU_State*)st,s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static TA_RetCode sf_CDLMARUBOZU(void**st){return TA_CDLMARUBOZU_StateFree((struct TA_CDLMARUBOZU_State**)st);}
static TA_RetCode ss_CDLMARUBOZU(void*st,FILE*f){return TA_CDLMARUBOZU_StateSave((struct TA_CDLMARUBOZU_State*)st,f);}
static TA_RetCode sl_CDLMARUBOZU(void**st,FILE*f){return TA_CDLMARUBOZU_StateLoad((struct TA_CDLMARUBOZU_State**)st,f);}
static TA_RetCode b_CDLMATCHINGLOW(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_CDLMATCHINGLOW(s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static TA_RetCode f_CDLMATCHINGLOW(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_CDLMATCHINGLOW(s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static int l_CDLMATCHINGLOW(const double*o){return TA_CDLMATCHINGLOW_Lookback();}
static TA_RetCode si_CDLMATCHINGLOW(void**st,const double*o){return TA_CDLMATCHINGLOW_StateInit((struct TA_CDLMATCHINGLOW_State**)st);}
static TA_RetCode st_CDLMATCHINGLOW(void*st,const double*p,void*const*q){return TA_CDLMATCHINGLOW_State((struct TA_CDLMATCHINGLOW_State*)st, p[0], p[1], p[2], p[3], (int*)q[0]);}
static TA_RetCode sb_CDLMATCHINGLOW(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_CDLMATCHINGLOW_BatchState((struct TA_CDLMATCHINGLOW_State*)st,s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static TA_RetCode sf_CDLMATCHINGLOW(void**st){return TA_CDLMATCHINGLOW_StateFree((struct TA_CDLMATCHINGLOW_State**)st);}
static TA_RetCode ss_CDLMATCHINGLOW(void*st,FILE*f){return TA_CDLMATCHINGLOW_StateSave((struct TA_CDLMATCHINGLOW_State*)st,f);}
static TA_RetCode sl_CDLMATCHINGLOW(void**st,FILE*f){return TA_CDLMATCHINGLOW_StateLoad((struct TA_CDLMATCHINGLOW_State**)st,f);}
static TA_RetCode b_CDLMATHOLD(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_CDLMATHOLD(s,e, p[0], p[1], p[2], p[3], o[0],b,n, (int*)q[0]);}
static TA_RetCode f_CDLMATHOLD(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_CDLMATHOLD(s,e, p[0], p[1], p[2], p[3], o[0],b,n, (int*)q[0]);}
static int l_CDLMATHOLD(const double*o){return TA_CDLMATHOLD_Lookback(o[0]);}
static TA_RetCode si_CDLMATHOLD(void**st,const double*o){return TA_CDLMATHOLD_StateInit((struct TA_CDLMATHOLD_State**)st, o[0]);}
static TA_RetCode st_CDLMATHOLD(void*st,const double*p,void*const*q){return TA_CDLMATHOLD_State((struct TA_CDLMATHOLD_State*)st, p[0], p[1], p[2], p[3], (int*)q[0]);}
static TA_RetCode sb_CDLMATHOLD(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_CDLMATHOLD_BatchState((struct TA_CDLMATHOLD_State*)st,s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static TA_RetCode sf_CDLMATHOLD(void**st){return TA_CDLMATHOLD_StateFree((struct TA_CDLMATHOLD_State**)st);}
static TA_RetCode ss_CDLMATHOLD(void*st,FILE*f){return TA_CDLMATHOLD_StateSave((struct TA_CDLMATHOLD_State*)st,f);}
static TA_RetCode sl_CDLMATHOLD(void**st,FILE*f){return TA_CDLMATHOLD_StateLoad((struct TA_CDLMATHOLD_State**)st,f);}
static TA_RetCode b_CDLMORNINGDOJISTAR(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_CDLMORNINGDOJISTAR(s,e, p[0], p[1], p[2], p[3], o[0],b,n, (int*)q[0]);}
static TA_RetCode f_CDLMORNINGDOJISTAR(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_CDLMORNINGDOJISTAR(s,e, p[0], p[1], p[2], p[3], o[0],b,n, (int*)q[0]);}
static int l_CDLMORNINGDOJISTAR(const double*o){return TA_CDLMORNINGDOJISTAR_Lookback(o[0]);}
static TA_RetCode si_CDLMORNINGDOJISTAR(void**st,const double*o){return TA_CDLMORNINGDOJISTAR_StateInit((struct TA_CDLMORNINGDOJISTAR_State**)st, o[0]);}
static TA_RetCode st_CDLMORNINGDOJISTAR(void*st,const double*p,void*const*q){return TA_CDLMORNINGDOJISTAR_State((struct TA_CDLMORNINGDOJISTAR_State*)st, p[0], p[1], p[2], p[3], (int*)q[0]);}
static TA_RetCode sb_CDLMORNINGDOJISTAR(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_CDLMORNINGDOJISTAR_BatchState((struct TA_CDLMORNINGDOJISTAR_State*)st,s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static TA_RetCode sf_CDLMORNINGDOJISTAR(void**st){return TA_CDLMORNINGDOJISTAR_StateFree((struct TA_CDLMORNINGDOJISTAR_State**)st);}
static TA_RetCode ss_CDLMORNINGDOJISTAR(void*st,FILE*f){return TA_CDLMORNINGDOJISTAR_StateSave((struct TA_CDLMORNINGDOJISTAR_State*)st,f);}
static TA_RetCode sl_CDLMORNINGDOJISTAR(void**st,FILE*f){return TA_CDLMORNINGDOJISTAR_StateLoad((struct TA_CDLMORNINGDOJISTAR_State**)st,f);}
static TA_RetCode b_CDLMORNINGSTAR(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_CDLMORNINGSTAR(s,e, p[0], p[1], p[2], p[3], o[0],b,n, (int*)q[0]);}
static TA_RetCode f_CDLMORNINGSTAR(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_CDLMORNINGSTAR(s,e, p[0], p[1], p[2], p[3], o[0],b,n, (int*)q[0]);}
static int l_CDLMORNINGSTAR(const double*o){return TA_CDLMORNINGSTAR_Lookback(o[0]);}
static TA_RetCode si_CDLMORNINGSTAR(void**st,const double*o){return TA_CDLMORNINGSTAR_StateInit((struct TA_CDLMORNINGSTAR_State**)st, o[0]);}
static TA_RetCode st_CDLMORNINGSTAR(void*st,const double*p,void*const*q){return TA_CDLMORNINGSTAR_State((struct TA_CDLMORNINGSTAR_State*)st, p[0], p[1], p[2], p[3], (int*)q[0]);}
static TA_RetCode sb_CDLMORNINGSTAR(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_CDLMORNINGSTAR_BatchState((struct TA_CDLMORNINGSTAR_State*)st,s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static TA_RetCode sf_CDLMORNINGSTAR(void**st){return TA_CDLMORNINGSTAR_StateFree((struct TA_CDLMORNINGSTAR_State**)st);}
static TA_RetCode ss_CDLMORNINGSTAR(void*st,FILE*f){return TA_CDLMORNINGSTAR_StateSave((struct TA_CDLMORNINGSTAR_State*)st,f);}
static TA_RetCode sl_CDLMORNINGSTAR(void**st,FILE*f){return TA_CDLMORNINGSTAR_StateLoad((struct TA_CDLMORNINGSTAR_State**)st,f);}
static TA_RetCode b_CDLONNECK(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_CDLONNECK(s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static TA_RetCode f_CDLONNECK(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_CDLONNECK(s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static int l_CDLONNECK(const double*o){return TA_CDLONNECK_Lookback();}
static TA_RetCode si_CDLONNECK(void**st,const double*o){return TA_CDLONNECK_StateInit((struct TA_CDLONNECK_State**)st);}
static TA_RetCode st_CDLONNECK(void*st,const double*p,void*const*q){return TA_CDLONNECK_State((struct TA_CDLONNECK_State*)st, p[0], p[1], p[2], p[3], (int*)q[0]);}
static TA_RetCode sb_CDLONNECK(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_CDLONNECK_BatchState((struct TA_CDLONNECK_State*)st,s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static TA_RetCode sf_CDLONNECK(void**st){return TA_CDLONNECK_StateFree((struct TA_CDLONNECK_State**)st);}
static TA_RetCode ss_CDLONNECK(void*st,FILE*f){return TA_CDLONNECK_StateSave((struct TA_CDLONNECK_State*)st,f);}
static TA_RetCode sl_CDLONNECK(void**st,FILE*f){return TA_CDLONNECK_StateLoad((struct TA_CDLONNECK_State**)st,f);}
static TA_RetCode b_CDLPIERCING(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_CDLPIERCING(s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static TA_RetCode f_CDLPIERCING(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_CDLPIERCING(s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static int l_CDLPIERCING(const double*o){return TA_CDLPIERCING_Lookback();}
static TA_RetCode si_CDLPIERCING(void**st,const double*o){return TA_CDLPIERCING_StateInit((struct TA_CDLPIERCING_State**)st);}
static TA_RetCode st_CDLPIERCING(void*st,const double*p,void*const*q){return TA_CDLPIERCING_State((struct TA_CDLPIERCING_State*)st, p[0], p[1], p[2], p[3], (int*)q[0]);}
static TA_RetCode sb_CDLPIERCING(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_CDLPIERCING_BatchState((struct TA_CDLPIERCING_State*)st,s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static TA_RetCode sf_CDLPIERCING(void**st){return TA_CDLPIERCING_StateFree((struct TA_CDLPIERCING_State**)st);}
static TA_RetCode ss_CDLPIERCING(void*st,FILE*f){return TA_CDLPIERCING_StateSave((struct TA_CDLPIERCING_State*)st,f);}
static TA_RetCode sl_CDLPIERCING(void**st,FILE*f){return TA_CDLPIERCING_StateLoad((struct TA_CDLPIERCING_State**)st,f);}
static TA_RetCode b_CDLRICKSHAWMAN(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_CDLRICKSHAWMAN(s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static TA_RetCode f_CDLRICKSHAWMAN(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_CDLRICKSHAWMAN(s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static int l_CDLRICKSHAWMAN(const double*o){return TA_CDLRICKSHAWMAN_Lookback();}
static TA_RetCode si_CDLRICKSHAWMAN(void**st,const double*o){return TA_CDLRICKSHAWMAN_StateInit((struct TA_CDLRICKSHAWMAN_State**)st);}
static TA_RetCode st_CDLRICKSHAWMAN(void*st,const double*p,void*const*q){return TA_CDLRICKSHAWMAN_State((struct TA_CDLRICKSHAWMAN_State*)st, p[0], p[1], p[2], p[3], (int*)q[0]);}
static TA_RetCode sb_CDLRICKSHAWMAN(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_CDLRICKSHAWMAN_BatchState((struct TA_CDLRICKSHAWMAN_State*)st,s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static TA_RetCode sf_CDLRICKSHAWMAN(void**st){return TA_CDLRICKSHAWMAN_StateFree((struct TA_CDLRICKSHAWMAN_State**)st);}
static TA_RetCode ss_CDLRICKSHAWMAN(void*st,FILE*f){return TA_CDLRICKSHAWMAN_StateSave((struct TA_CDLRICKSHAWMAN_State*)st,f);}
static TA_RetCode sl_CDLRICKSHAWMAN(void**st,FILE*f){return TA_CDLRICKSHAWMAN_StateLoad((struct TA_CDLRICKSHAWMAN_State**)st,f);}
static TA_RetCode b_CDLRISEFALL3METHODS(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_CDLRISEFALL3METHODS(s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static TA_RetCode f_CDLRISEFALL3METHODS(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_CDLRISEFALL3METHODS(s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static int l_CDLRISEFALL3METHODS(const double*o){return TA_CDLRISEFALL3METHODS_Lookback();}
static TA_RetCode si_CDLRISEFALL3METHODS(void**st,const double*o){return TA_CDLRISEFALL3METHODS_StateInit((struct TA_CDLRISEFALL3METHODS_State**)st);}
static TA_RetCode st_CDLRISEFALL3METHODS(void*st,const double*p,void*const*q){return TA_CDLRISEFALL3METHODS_State((struct TA_CDLRISEFALL3METHODS_State*)st, p[0], p[1], p[2], p[3], (int*)q[0]);}
static TA_RetCode sb_CDLRISEFALL3METHODS(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_CDLRISEFALL3METHODS_BatchState((struct TA_CDLRISEFALL3METHODS_State*)st,s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static TA_RetCode sf_CDLRISEFALL3METHODS(void**st){return TA_CDLRISEFALL3METHODS_StateFree((struct TA_CDLRISEFALL3METHODS_State**)st);}
static TA_RetCode ss_CDLRISEFALL3METHODS(void*st,FILE*f){return TA_CDLRISEFALL3METHODS_StateSave((struct TA_CDLRISEFALL3METHODS_State*)st,f);}
static TA_RetCode sl_CDLRISEFALL3METHODS(void**st,FILE*f){return TA_CDLRISEFALL3METHODS_StateLoad((struct TA_CDLRISEFALL3METHODS_State**)st,f);}
static TA_RetCode b_CDLSEPARATINGLINES(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_CDLSEPARATINGLINES(s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static TA_RetCode f_CDLSEPARATINGLINES(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_CDLSEPARATINGLINES(s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static int l_CDLSEPARATINGLINES(const double*o){return TA_CDLSEPARATINGLINES_Lookback();}
static TA_RetCode si_CDLSEPARATINGLINES(void**st,const double*o){return TA_CDLSEPARATINGLINES_StateInit((struct TA_CDLSEPARATINGLINES_State**)st);}
static TA_RetCode st_CDLSEPARATINGLINES(void*st,const double*p,void*const*q){return TA_CDLSEPARATINGLINES_State((struct TA_CDLSEPARATINGLINES_State*)st, p[0], p[1], p[2], p[3], (int*)q[0]);}
static TA_RetCode sb_CDLSEPARATINGLINES(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_CDLSEPARATINGLINES_BatchState((struct TA_CDLSEPARATINGLINES_State*)st,s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static TA_RetCode sf_CDLSEPARATINGLINES(void**st){return TA_CDLSEPARATINGLINES_StateFree((struct TA_CDLSEPARATINGLINES_State**)st);}
static TA_RetCode ss_CDLSEPARATINGLINES(void*st,FILE*f){return TA_CDLSEPARATINGLINES_StateSave((struct TA_CDLSEPARATINGLINES_State*)st,f);}
static TA_RetCode sl_CDLSEPARATINGLINES(void**st,FILE*f){return TA_CDLSEPARATINGLINES_StateLoad((struct TA_CDLSEPARATINGLINES_State**)st,f);}
static TA_RetCode b_CDLSHOOTINGSTAR(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_CDLSHOOTINGSTAR(s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static TA_RetCode f_CDLSHOOTINGSTAR(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_CDLSHOOTINGSTAR(s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static int l_CDLSHOOTINGSTAR(const double*o){return TA_CDLSHOOTINGSTAR_Lookback();}
static TA_RetCode si_CDLSHOOTINGSTAR(void**st,const double*o){return TA_CDLSHOOTINGSTAR_StateInit((struct TA_CDLSHOOTINGSTAR_State**)st);}
static TA_RetCode st_CDLSHOOTINGSTAR(void*st,const double*p,void*const*q){return TA_CDLSHOOTINGSTAR_State((struct TA_CDLSHOOTINGSTAR_State*)st, p[0], p[1], p[2], p[3], (int*)q[0]);}
static TA_RetCode sb_CDLSHOOTINGSTAR(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_CDLSHOOTINGSTAR_BatchState((struct TA_CDLSHOOTINGSTAR_State*)st,s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static TA_RetCode sf_CDLSHOOTINGSTAR(void**st){return TA_CDLSHOOTINGSTAR_StateFree((struct TA_CDLSHOOTINGSTAR_State**)st);}
static TA_RetCode ss_CDLSHOOTINGSTAR(void*st,FILE*f){return TA_CDLSHOOTINGSTAR_StateSave((struct TA_CDLSHOOTINGSTAR_State*)st,f);}
static TA_RetCode sl_CDLSHOOTINGSTAR(void**st,FILE*f){return TA_CDLSHOOTINGSTAR_StateLoad((struct TA_CDLSHOOTINGSTAR_State**)st,f);}
static TA_RetCode b_CDLSHORTLINE(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_CDLSHORTLINE(s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static TA_RetCode f_CDLSHORTLINE(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_CDLSHORTLINE(s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static int l_CDLSHORTLINE(const double*o){return TA_CDLSHORTLINE_Lookback();}
static TA_RetCode si_CDLSHORTLINE(void**st,const double*o){return TA_CDLSHORTLINE_StateInit((struct TA_CDLSHORTLINE_State**)st);}
static TA_RetCode st_CDLSHORTLINE(void*st,const double*p,void*const*q){return TA_CDLSHORTLINE_State((struct TA_CDLSHORTLINE_State*)st, p[0], p[1], p[2], p[3], (int*)q[0]);}
static TA_RetCode sb_CDLSHORTLINE(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_CDLSHORTLINE_BatchState((struct TA_CDLSHORTLINE_State*)st,s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static TA_RetCode sf_CDLSHORTLINE(void**st){return TA_CDLSHORTLINE_StateFree((struct TA_CDLSHORTLINE_State**)st);}
static TA_RetCode ss_CDLSHORTLINE(void*st,FILE*f){return TA_CDLSHORTLINE_StateSave((struct TA_CDLSHORTLINE_State*)st,f);}
static TA_RetCode sl_CDLSHORTLINE(void**st,FILE*f){return TA_CDLSHORTLINE_StateLoad((struct TA_CDLSHORTLINE_State**)st,f);}
static TA_RetCode b_CDLSPINNINGTOP(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_CDLSPINNINGTOP(s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static TA_RetCode f_CDLSPINNINGTOP(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_CDLSPINNINGTOP(s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static int l_CDLSPINNINGTOP(const double*o){return TA_CDLSPINNINGTOP_Lookback();}
static TA_RetCode si_CDLSPINNINGTOP(void**st,const double*o){return TA_CDLSPINNINGTOP_StateInit((struct TA_CDLSPINNINGTOP_State**)st);}
static TA_RetCode st_CDLSPINNINGTOP(void*st,const double*p,void*const*q){return TA_CDLSPINNINGTOP_State((struct TA_CDLSPINNINGTOP_State*)st, p[0], p[1], p[2], p[3], (int*)q[0]);}
static TA_RetCode sb_CDLSPINNINGTOP(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_CDLSPINNINGTOP_BatchState((struct TA_CDLSPINNINGTOP_State*)st,s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static TA_RetCode sf_CDLSPINNINGTOP(void**st){return TA_CDLSPINNINGTOP_StateFree((struct TA_CDLSPINNINGTOP_State**)st);}
static TA_RetCode ss_CDLSPINNINGTOP(void*st,FILE*f){return TA_CDLSPINNINGTOP_StateSave((struct TA_CDLSPINNINGTOP_State*)st,f);}
static TA_RetCode sl_CDLSPINNINGTOP(void**st,FILE*f){return TA_CDLSPINNINGTOP_StateLoad((struct TA_CDLSPINNINGTOP_State**)st,f);}
static TA_RetCode b_CDLSTALLEDPATTERN(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_CDLSTALLEDPATTERN(s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static TA_RetCode f_CDLSTALLEDPATTERN(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_CDLSTALLEDPATTERN(s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static int l_CDLSTALLEDPATTERN(const double*o){return TA_CDLSTALLEDPATTERN_Lookback();}
static TA_RetCode si_CDLSTALLEDPATTERN(void**st,const double*o){return TA_CDLSTALLEDPATTERN_StateInit((struct TA_CDLSTALLEDPATTERN_State**)st);}
static TA_RetCode st_CDLSTALLEDPATTERN(void*st,const double*p,void*const*q){return TA_CDLSTALLEDPATTERN_State((struct TA_CDLSTALLEDPATTERN_State*)st, p[0], p[1], p[2], p[3], (int*)q[0]);}
static TA_RetCode sb_CDLSTALLEDPATTERN(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_CDLSTALLEDPATTERN_BatchState((struct TA_CDLSTALLEDPATTERN_State*)st,s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static TA_RetCode sf_CDLSTALLEDPATTERN(void**st){return TA_CDLSTALLEDPATTERN_StateFree((struct TA_CDLSTALLEDPATTERN_State**)st);}
static TA_RetCode ss_CDLSTALLEDPATTERN(void*st,FILE*f){return TA_CDLSTALLEDPATTERN_StateSave((struct TA_CDLSTALLEDPATTERN_State*)st,f);}
static TA_RetCode sl_CDLSTALLEDPATTERN(void**st,FILE*f){return TA_CDLSTALLEDPATTERN_StateLoad((struct TA_CDLSTALLEDPATTERN_State**)st,f);}
static TA_RetCode b_CDLSTICKSANDWICH(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_CDLSTICKSANDWICH(s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static TA_RetCode f_CDLSTICKSANDWICH(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_CDLSTICKSANDWICH(s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static int l_CDLSTICKSANDWICH(const double*o){return TA_CDLSTICKSANDWICH_Lookback();}
static TA_RetCode si_CDLSTICKSANDWICH(void**st,const double*o){return TA_CDLSTICKSANDWICH_StateInit((struct TA_CDLSTICKSANDWICH_State**)st);}
static TA_RetCode st_CDLSTICKSANDWICH(void*st,const double*p,void*const*q){return TA_CDLSTICKSANDWICH_State((struct TA_CDLSTICKSANDWICH_State*)st, p[0], p[1], p[2], p[3], (int*)q[0]);}
static TA_RetCode sb_CDLSTICKSANDWICH(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_CDLSTICKSANDWICH_BatchState((struct TA_CDLSTICKSANDWICH_State*)st,s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static TA_RetCode sf_CDLSTICKSANDWICH(void**st){return TA_CDLSTICKSANDWICH_StateFree((struct TA_CDLSTICKSANDWICH_State**)st);}
static TA_RetCode ss_CDLSTICKSANDWICH(void*st,FILE*f){return TA_CDLSTICKSANDWICH_StateSave((struct TA_CDLSTICKSANDWICH_State*)st,f);}
static TA_RetCode sl_CDLSTICKSANDWICH(void**st,FILE*f){return TA_CDLSTICKSANDWICH_StateLoad((struct TA_CDLSTICKSANDWICH_State**)st,f);}
static TA_RetCode b_CDLTAKURI(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_CDLTAKURI(s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static TA_RetCode f_CDLTAKURI(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_CDLTAKURI(s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static int l_CDLTAKURI(const double*o){return TA_CDLTAKURI_Lookback();}
static TA_RetCode si_CDLTAKURI(void**st,const double*o){return TA_CDLTAKURI_StateInit((struct TA_CDLTAKURI_State**)st);}
static TA_RetCode st_CDLTAKURI(void*st,const double*p,void*const*q){return TA_CDLTAKURI_State((struct TA_CDLTAKURI_State*)st, p[0], p[1], p[2], p[3], (int*)q[0]);}
static TA_RetCode sb_CDLTAKURI(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_CDLTAKURI_BatchState((struct TA_CDLTAKURI_State*)st,s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static TA_RetCode sf_CDLTAKURI(void**st){return TA_CDLTAKURI_StateFree((struct TA_CDLTAKURI_State**)st);}
static TA_RetCode ss_CDLTAKURI(void*st,FILE*f){return TA_CDLTAKURI_StateSave((struct TA_CDLTAKURI_State*)st,f);}
static TA_RetCode sl_CDLTAKURI(void**st,FILE*f){return TA_CDLTAKURI_StateLoad((struct TA_CDLTAKURI_State**)st,f);}
static TA_RetCode b_CDLTASUKIGAP(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_CDLTASUKIGAP(s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static TA_RetCode f_CDLTASUKIGAP(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_CDLTASUKIGAP(s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static int l_CDLTASUKIGAP(const double*o){return TA_CDLTASUKIGAP_Lookback();}
static TA_RetCode si_CDLTASUKIGAP(void**st,const double*o){return TA_CDLTASUKIGAP_StateInit((struct TA_CDLTASUKIGAP_State**)st);}
static TA_RetCode st_CDLTASUKIGAP(void*st,const double*p,void*const*q){return TA_CDLTASUKIGAP_State((struct TA_CDLTASUKIGAP_State*)st, p[0], p[1], p[2], p[3], (int*)q[0]);}
static TA_RetCode sb_CDLTASUKIGAP(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_CDLTASUKIGAP_BatchState((struct TA_CDLTASUKIGAP_State*)st,s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static TA_RetCode sf_CDLTASUKIGAP(void**st){return TA_CDLTASUKIGAP_StateFree((struct TA_CDLTASUKIGAP_State**)st);}
static TA_RetCode ss_CDLTASUKIGAP(void*st,FILE*f){return TA_CDLTASUKIGAP_StateSave((struct TA_CDLTASUKIGAP_State*)st,f);}
static TA_RetCode sl_CDLTASUKIGAP(void**st,FILE*f){return TA_CDLTASUKIGAP_StateLoad((struct TA_CDLTASUKIGAP_State**)st,f);}
static TA_RetCode b_CDLTHRUSTING(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_CDLTHRUSTING(s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static TA_RetCode f_CDLTHRUSTING(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_CDLTHRUSTING(s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static int l_CDLTHRUSTING(const double*o){return TA_CDLTHRUSTING_Lookback();}
static TA_RetCode si_CDLTHRUSTING(void**st,const double*o){return TA_CDLTHRUSTING_StateInit((struct TA_CDLTHRUSTING_State**)st);}
static TA_RetCode st_CDLTHRUSTING(void*st,const double*p,void*const*q){return TA_CDLTHRUSTING_State((struct TA_CDLTHRUSTING_State*)st, p[0], p[1], p[2], p[3], (int*)q[0]);}
static TA_RetCode sb_CDLTHRUSTING(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_CDLTHRUSTING_BatchState((struct TA_CDLTHRUSTING_State*)st,s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static TA_RetCode sf_CDLTHRUSTING(void**st){return TA_CDLTHRUSTING_StateFree((struct TA_CDLTHRUSTING_State**)st);}
static TA_RetCode ss_CDLTHRUSTING(void*st,FILE*f){return TA_CDLTHRUSTING_StateSave((struct TA_CDLTHRUSTING_State*)st,f);}
static TA_RetCode sl_CDLTHRUSTING(void**st,FILE*f){return TA_CDLTHRUSTING_StateLoad((struct TA_CDLTHRUSTING_State**)st,f);}
static TA_RetCode b_CDLTRISTAR(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_CDLTRISTAR(s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static TA_RetCode f_CDLTRISTAR(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_CDLTRISTAR(s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static int l_CDLTRISTAR(const double*o){return TA_CDLTRISTAR_Lookback();}
static TA_RetCode si_CDLTRISTAR(void**st,const double*o){return TA_CDLTRISTAR_StateInit((struct TA_CDLTRISTAR_State**)st);}
static TA_RetCode st_CDLTRISTAR(void*st,const double*p,void*const*q){return TA_CDLTRISTAR_State((struct TA_CDLTRISTAR_State*)st, p[0], p[1], p[2], p[3], (int*)q[0]);}
static TA_RetCode sb_CDLTRISTAR(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_CDLTRISTAR_BatchState((struct TA_CDLTRISTAR_State*)st,s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static TA_RetCode sf_CDLTRISTAR(void**st){return TA_CDLTRISTAR_StateFree((struct TA_CDLTRISTAR_State**)st);}
static TA_RetCode ss_CDLTRISTAR(void*st,FILE*f){return TA_CDLTRISTAR_StateSave((struct TA_CDLTRISTAR_State*)st,f);}
static TA_RetCode sl_CDLTRISTAR(void**st,FILE*f){return TA_CDLTRISTAR_StateLoad((struct TA_CDLTRISTAR_State**)st,f);}
static TA_RetCode b_CDLUNIQUE3RIVER(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_CDLUNIQUE3RIVER(s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static TA_RetCode f_CDLUNIQUE3RIVER(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_CDLUNIQUE3RIVER(s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static int l_CDLUNIQUE3RIVER(const double*o){return TA_CDLUNIQUE3RIVER_Lookback();}
static TA_RetCode si_CDLUNIQUE3RIVER(void**st,const double*o){return TA_CDLUNIQUE3RIVER_StateInit((struct TA_CDLUNIQUE3RIVER_State**)st);}
static TA_RetCode st_CDLUNIQUE3RIVER(void*st,const double*p,void*const*q){return TA_CDLUNIQUE3RIVER_State((struct TA_CDLUNIQUE3RIVER_State*)st, p[0], p[1], p[2], p[3], (int*)q[0]);}
static TA_RetCode sb_CDLUNIQUE3RIVER(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_CDLUNIQUE3RIVER_BatchState((struct TA_CDLUNIQUE3RIVER_State*)st,s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static TA_RetCode sf_CDLUNIQUE3RIVER(void**st){return TA_CDLUNIQUE3RIVER_StateFree((struct TA_CDLUNIQUE3RIVER_State**)st);}
static TA_RetCode ss_CDLUNIQUE3RIVER(void*st,FILE*f){return TA_CDLUNIQUE3RIVER_StateSave((struct TA_CDLUNIQUE3RIVER_State*)st,f);}
static TA_RetCode sl_CDLUNIQUE3RIVER(void**st,FILE*f){return TA_CDLUNIQUE3RIVER_StateLoad((struct TA_CDLUNIQUE3RIVER_State**)st,f);}
static TA_RetCode b_CDLUPSIDEGAP2CROWS(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_CDLUPSIDEGAP2CROWS(s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static TA_RetCode f_CDLUPSIDEGAP2CROWS(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_CDLUPSIDEGAP2CROWS(s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static int l_CDLUPSIDEGAP2CROWS(const double*o){return TA_CDLUPSIDEGAP2CROWS_Lookback();}
static TA_RetCode si_CDLUPSIDEGAP2CROWS(void**st,const double*o){return TA_CDLUPSIDEGAP2CROWS_StateInit((struct TA_CDLUPSIDEGAP2CROWS_State**)st);}
static TA_RetCode st_CDLUPSIDEGAP2CROWS(void*st,const double*p,void*const*q){return TA_CDLUPSIDEGAP2CROWS_State((struct TA_CDLUPSIDEGAP2CROWS_State*)st, p[0], p[1], p[2], p[3], (int*)q[0]);}
static TA_RetCode sb_CDLUPSIDEGAP2CROWS(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_CDLUPSIDEGAP2CROWS_BatchState((struct TA_CDLUPSIDEGAP2CROWS_State*)st,s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static TA_RetCode sf_CDLUPSIDEGAP2CROWS(void**st){return TA_CDLUPSIDEGAP2CROWS_StateFree((struct TA_CDLUPSIDEGAP2CROWS_State**)st);}
static TA_RetCode ss_CDLUPSIDEGAP2CROWS(void*st,FILE*f){return TA_CDLUPSIDEGAP2CROWS_StateSave((struct TA_CDLUPSIDEGAP2CROWS_State*)st,f);}
static TA_RetCode sl_CDLUPSIDEGAP2CROWS(void**st,FILE*f){return TA_CDLUPSIDEGAP2CROWS_StateLoad((struct TA_CDLUPSIDEGAP2CROWS_State**)st,f);}
static TA_RetCode b_CDLXSIDEGAP3METHODS(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_CDLXSIDEGAP3METHODS(s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static TA_RetCode f_CDLXSIDEGAP3METHODS(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_CDLXSIDEGAP3METHODS(s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static int l_CDLXSIDEGAP3METHODS(const double*o){return TA_CDLXSIDEGAP3METHODS_Lookback();}
static TA_RetCode si_CDLXSIDEGAP3METHODS(void**st,const double*o){return TA_CDLXSIDEGAP3METHODS_StateInit((struct TA_CDLXSIDEGAP3METHODS_State**)st);}
static TA_RetCode st_CDLXSIDEGAP3METHODS(void*st,const double*p,void*const*q){return TA_CDLXSIDEGAP3METHODS_State((struct TA_CDLXSIDEGAP3METHODS_State*)st, p[0], p[1], p[2], p[3], (int*)q[0]);}
static TA_RetCode sb_CDLXSIDEGAP3METHODS(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_CDLXSIDEGAP3METHODS_BatchState((struct TA_CDLXSIDEGAP3METHODS_State*)st,s,e, p[0], p[1], p[2], p[3],b,n, (int*)q[0]);}
static TA_RetCode sf_CDLXSIDEGAP3METHODS(void**st){return TA_CDLXSIDEGAP3METHODS_StateFree((struct TA_CDLXSIDEGAP3METHODS_State**)st);}
static TA_RetCode ss_CDLXSIDEGAP3METHODS(void*st,FILE*f){return TA_CDLXSIDEGAP3METHODS_StateSave((struct TA_CDLXSIDEGAP3METHODS_State*)st,f);}
static TA_RetCode sl_CDLXSIDEGAP3METHODS(void**st,FILE*f){return TA_CDLXSIDEGAP3METHODS_StateLoad((struct TA_CDLXSIDEGAP3METHODS_State**)st,f);}
static TA_RetCode b_CEIL(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_CEIL(s,e, p[0],b,n, (double*)q[0]);}
static TA_RetCode f_CEIL(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_CEIL(s,e, p[0],b,n, (double*)q[0]);}
static int l_CEIL(const double*o){return TA_CEIL_Lookback();}
static TA_RetCode si_CEIL(void**st,const double*o){return TA_CEIL_StateInit((struct TA_CEIL_State**)st);}
static TA_RetCode st_CEIL(void*st,const double*p,void*const*q){return TA_CEIL_State((struct TA_CEIL_State*)st, p[0], (double*)q[0]);}
static TA_RetCode sb_CEIL(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_CEIL_BatchState((struct TA_CEIL_State*)st,s,e, p[0],b,n, (double*)q[0]);}
static TA_RetCode sf_CEIL(void**st){return TA_CEIL_StateFree((struct TA_CEIL_State**)st);}
static TA_RetCode ss_CEIL(void*st,FILE*f){return TA_CEIL_StateSave((struct TA_CEIL_State*)st,f);}
static TA_RetCode sl_CEIL(void**st,FILE*f){return TA_CEIL_StateLoad((struct TA_CEIL_State**)st,f);}
static TA_RetCode b_CMO(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_CMO(s,e, p[0], (int)o[0],b,n, (double*)q[0]);}
static TA_RetCode f_CMO(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_CMO(s,e, p[0], (int)o[0],b,n, (double*)q[0]);}
static int l_CMO(const double*o){return TA_CMO_Lookback((int)o[0]);}
static TA_RetCode si_CMO(void**st,const double*o){return TA_CMO_StateInit((struct TA_CMO_State**)st, (int)o[0]);}
static TA_RetCode st_CMO(void*st,const double*p,void*const*q){return TA_CMO_State((struct TA_CMO_State*)st, p[0], (double*)q[0]);}
static TA_RetCode sb_CMO(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_CMO_BatchState((struct TA_CMO_State*)st,s,e, p[0],b,n, (double*)q[0]);}
static TA_RetCode sf_CMO(void**st){return TA_CMO_StateFree((struct TA_CMO_State**)st);}
static TA_RetCode ss_CMO(void*st,FILE*f){return TA_CMO_StateSave((struct TA_CMO_State*)st,f);}
static TA_RetCode sl_CMO(void**st,FILE*f){return TA_CMO_StateLoad((struct TA_CMO_State**)st,f);}
static TA_RetCode b_CORREL(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_CORREL(s,e, p[0], p[1], (int)o[0],b,n, (double*)q[0]);}
static TA_RetCode f_CORREL(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_CORREL(s,e, p[0], p[1], (int)o[0],b,n, (double*)q[0]);}
static int l_CORREL(const double*o){return TA_CORREL_Lookback((int)o[0]);}
static TA_RetCode si_CORREL(void**st,const double*o){return TA_CORREL_StateInit((struct TA_CORREL_State**)st, (int)o[0]);}
static TA_RetCode st_CORREL(void*st,const double*p,void*const*q){return TA_CORREL_State((struct TA_CORREL_State*)st, p[0], p[1], (double*)q[0]);}
static TA_RetCode sb_CORREL(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_CORREL_BatchState((struct TA_CORREL_State*)st,s,e, p[0], p[1],b,n, (double*)q[0]);}
static TA_RetCode sf_CORREL(void**st){return TA_CORREL_StateFree((struct TA_CORREL_State**)st);}
static TA_RetCode ss_CORREL(void*st,FILE*f){return TA_CORREL_StateSave((struct TA_CORREL_State*)st,f);}
static TA_RetCode sl_CORREL(void**st,FILE*f){return TA_CORREL_StateLoad((struct TA_CORREL_State**)st,f);}
static TA_RetCode b_COS(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_COS(s,e, p[0],b,n, (double*)q[0]);}
static TA_RetCode f_COS(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_COS(s,e, p[0],b,n, (double*)q[0]);}
static int l_COS(const double*o){return TA_COS_Lookback();}
static TA_RetCode si_COS(void**st,const double*o){return TA_COS_StateInit((struct TA_COS_State**)st);}
static TA_RetCode st_COS(void*st,const double*p,void*const*q){return TA_COS_State((struct TA_COS_State*)st, p[0], (double*)q[0]);}
static TA_RetCode sb_COS(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_COS_BatchState((struct TA_COS_State*)st,s,e, p[0],b,n, (double*)q[0]);}
static TA_RetCode sf_COS(void**st){return TA_COS_StateFree((struct TA_COS_State**)st);}
static TA_RetCode ss_COS(void*st,FILE*f){return TA_COS_StateSave((struct TA_COS_State*)st,f);}
static TA_RetCode sl_COS(void**st,FILE*f){return TA_COS_StateLoad((struct TA_COS_State**)st,f);}
static TA_RetCode b_COSH(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_COSH(s,e, p[0],b,n, (double*)q[0]);}
static TA_RetCode f_COSH(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_COSH(s,e, p[0],b,n, (double*)q[0]);}
static int l_COSH(const double*o){return TA_COSH_Lookback();}
static TA_RetCode si_COSH(void**st,const double*o){return TA_COSH_StateInit((struct TA_COSH_State**)st);}
static TA_RetCode st_COSH(void*st,const double*p,void*const*q){return TA_COSH_State((struct TA_COSH_State*)st, p[0], (double*)q[0]);}
static TA_RetCode sb_COSH(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_COSH_BatchState((struct TA_COSH_State*)st,s,e, p[0],b,n, (double*)q[0]);}
static TA_RetCode sf_COSH(void**st){return TA_COSH_StateFree((struct TA_COSH_State**)st);}
static TA_RetCode ss_COSH(void*st,FILE*f){return TA_COSH_StateSave((struct TA_COSH_State*)st,f);}
static TA_RetCode sl_COSH(void**st,FILE*f){return TA_COSH_StateLoad((struct TA_COSH_State**)st,f);}
static TA_RetCode b_DEMA(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_DEMA(s,e, p[0], (int)o[0],b,n, (double*)q[0]);}
static TA_RetCode f_DEMA(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_DEMA(s,e, p[0], (int)o[0],b,n, (double*)q[0]);}
static int l_DEMA(const double*o){return TA_DEMA_Lookback((int)o[0]);}
static TA_RetCode si_DEMA(void**st,const double*o){return TA_DEMA_StateInit((struct TA_DEMA_State**)st, (int)o[0]);}
static TA_RetCode st_DEMA(void*st,const double*p,void*const*q){return TA_DEMA_State((struct TA_DEMA_State*)st, p[0], (double*)q[0]);}
static TA_RetCode sb_DEMA(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_DEMA_BatchState((struct TA_DEMA_State*)st,s,e, p[0],b,n, (double*)q[0]);}
static TA_RetCode sf_DEMA(void**st){return TA_DEMA_StateFree((struct TA_DEMA_State**)st);}
static TA_RetCode ss_DEMA(void*st,FILE*f){return TA_DEMA_StateSave((struct TA_DEMA_State*)st,f);}
static TA_RetCode sl_DEMA(void**st,FILE*f){return TA_DEMA_StateLoad((struct TA_DEMA_State**)st,f);}
static TA_RetCode b_DIV(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_DIV(s,e, p[0], p[1],b,n, (double*)q[0]);}
static TA_RetCode f_DIV(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_DIV(s,e, p[0], p[1],b,n, (double*)q[0]);}
static int l_DIV(const double*o){return TA_DIV_Lookback();}
static TA_RetCode si_DIV(void**st,const double*o){return TA_DIV_StateInit((struct TA_DIV_State**)st);}
static TA_RetCode st_DIV(void*st,const double*p,void*const*q){return TA_DIV_State((struct TA_DIV_State*)st, p[0], p[1], (double*)q[0]);}
static TA_RetCode sb_DIV(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_DIV_BatchState((struct TA_DIV_State*)st,s,e, p[0], p[1],b,n, (double*)q[0]);}
static TA_RetCode sf_DIV(void**st){return TA_DIV_StateFree((struct TA_DIV_State**)st);}
static TA_RetCode ss_DIV(void*st,FILE*f){return TA_DIV_StateSave((struct TA_DIV_State*)st,f);}
static TA_RetCode sl_DIV(void**st,FILE*f){return TA_DIV_StateLoad((struct TA_DIV_State**)st,f);}
static TA_RetCode b_DX(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_DX(s,e, p[0], p[1], p[2], (int)o[0],b,n, (double*)q[0]);}
static TA_RetCode f_DX(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_DX(s,e, p[0], p[1], p[2], (int)o[0],b,n, (double*)q[0]);}
static int l_DX(const double*o){return TA_DX_Lookback((int)o[0]);}
static TA_RetCode si_DX(void**st,const double*o){return TA_DX_StateInit((struct TA_DX_State**)st, (int)o[0]);}
static TA_RetCode st_DX(void*st,const double*p,void*const*q){return TA_DX_State((struct TA_DX_State*)st, p[0], p[1], p[2], (double*)q[0]);}
static TA_RetCode sb_DX(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_DX_BatchState((struct TA_DX_State*)st,s,e, p[0], p[1], p[2],b,n, (double*)q[0]);}
static TA_RetCode sf_DX(void**st){return TA_DX_StateFree((struct TA_DX_State**)st);}
static TA_RetCode ss_DX(void*st,FILE*f){return TA_DX_StateSave((struct TA_DX_State*)st,f);}
static TA_RetCode sl_DX(void**st,FILE*f){return TA_DX_StateLoad((struct TA_DX_State**)st,f);}
static TA_RetCode b_EMA(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_EMA(s,e, p[0], (int)o[0],b,n, (double*)q[0]);}
static TA_RetCode f_EMA(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_EMA(s,e, p[0], (int)o[0],b,n, (double*)q[0]);}
static int l_EMA(const double*o){return TA_EMA_Lookback((int)o[0]);}
static TA_RetCode si_EMA(void**st,const double*o){return TA_EMA_StateInit((struct TA_EMA_State**)st, (int)o[0]);}
static TA_RetCode st_EMA(void*st,const double*p,void*const*q){return TA_EMA_State((struct TA_EMA_State*)st, p[0], (double*)q[0]);}
static TA_RetCode sb_EMA(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_EMA_BatchState((struct TA_EMA_State*)st,s,e, p[0],b,n, (double*)q[0]);}
static TA_RetCode sf_EMA(void**st){return TA_EMA_StateFree((struct TA_EMA_State**)st);}
static TA_RetCode ss_EMA(void*st,FILE*f){return TA_EMA_StateSave((struct TA_EMA_State*)st,f);}
static TA_RetCode sl_EMA(void**st,FILE*f){return TA_EMA_StateLoad((struct TA_EMA_State**)st,f);}
static TA_RetCode b_EXP(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_EXP(s,e, p[0],b,n, (double*)q[0]);}
static TA_RetCode f_EXP(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_EXP(s,e, p[0],b,n, (double*)q[0]);}
static int l_EXP(const double*o){return TA_EXP_Lookback();}
static TA_RetCode si_EXP(void**st,const double*o){return TA_EXP_StateInit((struct TA_EXP_State**)st);}
static TA_RetCode st_EXP(void*st,const double*p,void*const*q){return TA_EXP_State((struct TA_EXP_State*)st, p[0], (double*)q[0]);}
static TA_RetCode sb_EXP(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_EXP_BatchState((struct TA_EXP_State*)st,s,e, p[0],b,n, (double*)q[0]);}
static TA_RetCode sf_EXP(void**st){return TA_EXP_StateFree((struct TA_EXP_State**)st);}
static TA_RetCode ss_EXP(void*st,FILE*f){return TA_EXP_StateSave((struct TA_EXP_State*)st,f);}
static TA_RetCode sl_EXP(void**st,FILE*f){return TA_EXP_StateLoad((struct TA_EXP_State**)st,f);}
static TA_RetCode b_FLOOR(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_FLOOR(s,e, p[0],b,n, (double*)q[0]);}
static TA_RetCode f_FLOOR(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_FLOOR(s,e, p[0],b,n, (double*)q[0]);}
static int l_FLOOR(const double*o){return TA_FLOOR_Lookback();}
static TA_RetCode si_FLOOR(void**st,const double*o){return TA_FLOOR_StateInit((struct TA_FLOOR_State**)st);}
static TA_RetCode st_FLOOR(void*st,const double*p,void*const*q){return TA_FLOOR_State((struct TA_FLOOR_State*)st, p[0], (double*)q[0]);}
static TA_RetCode sb_FLOOR(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_FLOOR_BatchState((struct TA_FLOOR_State*)st,s,e, p[0],b,n, (double*)q[0]);}
static TA_RetCode sf_FLOOR(void**st){return TA_FLOOR_StateFree((struct TA_FLOOR_State**)st);}
static TA_RetCode ss_FLOOR(void*st,FILE*f){return TA_FLOOR_StateSave((struct TA_FLOOR_State*)st,f);}
static TA_RetCode sl_FLOOR(void**st,FILE*f){return TA_FLOOR_StateLoad((struct TA_FLOOR_State**)st,f);}
static TA_RetCode b_HT_DCPERIOD(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_HT_DCPERIOD(s,e, p[0],b,n, (double*)q[0]);}
static TA_RetCode f_HT_DCPERIOD(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_HT_DCPERIOD(s,e, p[0],b,n, (double*)q[0]);}
static int l_HT_DCPERIOD(const double*o){return TA_HT_DCPERIOD_Lookback();}
static TA_RetCode si_HT_DCPERIOD(void**st,const double*o){return TA_HT_DCPERIOD_StateInit((struct TA_HT_DCPERIOD_State**)st);}
static TA_RetCode st_HT_DCPERIOD(void*st,const double*p,void*const*q){return TA_HT_DCPERIOD_State((struct TA_HT_DCPERIOD_State*)st, p[0], (double*)q[0]);}
static TA_RetCode sb_HT_DCPERIOD(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_HT_DCPERIOD_BatchState((struct TA_HT_DCPERIOD_State*)st,s,e, p[0],b,n, (double*)q[0]);}
static TA_RetCode sf_HT_DCPERIOD(void**st){return TA_HT_DCPERIOD_StateFree((struct TA_HT_DCPERIOD_State**)st);}
static TA_RetCode ss_HT_DCPERIOD(void*st,FILE*f){return TA_HT_DCPERIOD_StateSave((struct TA_HT_DCPERIOD_State*)st,f);}
static TA_RetCode sl_HT_DCPERIOD(void**st,FILE*f){return TA_HT_DCPERIOD_StateLoad((struct TA_HT_DCPERIOD_State**)st,f);}
static TA_RetCode b_HT_DCPHASE(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_HT_DCPHASE(s,e, p[0],b,n, (double*)q[0]);}
static TA_RetCode f_HT_DCPHASE(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_HT_DCPHASE(s,e, p[0],b,n, (double*)q[0]);}
static int l_HT_DCPHASE(const double*o){return TA_HT_DCPHASE_Lookback();}
static TA_RetCode si_HT_DCPHASE(void**st,const double*o){return TA_HT_DCPHASE_StateInit((struct TA_HT_DCPHASE_State**)st);}
static TA_RetCode st_HT_DCPHASE(void*st,const double*p,void*const*q){return TA_HT_DCPHASE_State((struct TA_HT_DCPHASE_State*)st, p[0], (double*)q[0]);}
static TA_RetCode sb_HT_DCPHASE(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_HT_DCPHASE_BatchState((struct TA_HT_DCPHASE_State*)st,s,e, p[0],b,n, (double*)q[0]);}
static TA_RetCode sf_HT_DCPHASE(void**st){return TA_HT_DCPHASE_StateFree((struct TA_HT_DCPHASE_State**)st);}
static TA_RetCode ss_HT_DCPHASE(void*st,FILE*f){return TA_HT_DCPHASE_StateSave((struct TA_HT_DCPHASE_State*)st,f);}
static TA_RetCode sl_HT_DCPHASE(void**st,FILE*f){return TA_HT_DCPHASE_StateLoad((struct TA_HT_DCPHASE_State**)st,f);}
static TA_RetCode b_HT_PHASOR(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_HT_PHASOR(s,e, p[0],b,n, (double*)q[0], (double*)q[1]);}
static TA_RetCode f_HT_PHASOR(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_HT_PHASOR(s,e, p[0],b,n, (double*)q[0], (double*)q[1]);}
static int l_HT_PHASOR(const double*o){return TA_HT_PHASOR_Lookback();}
static TA_RetCode si_HT_PHASOR(void**st,const double*o){return TA_HT_PHASOR_StateInit((struct TA_HT_PHASOR_State**)st);}
static TA_RetCode st_HT_PHASOR(void*st,const double*p,void*const*q){return TA_HT_PHASOR_State((struct TA_HT_PHASOR_State*)st, p[0], (double*)q[0], (double*)q[1]);}
static TA_RetCode sb_HT_PHASOR(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_HT_PHASOR_BatchState((struct TA_HT_PHASOR_State*)st,s,e, p[0],b,n, (double*)q[0], (double*)q[1]);}
static TA_RetCode sf_HT_PHASOR(void**st){return TA_HT_PHASOR_StateFree((struct TA_HT_PHASOR_State**)st);}
static TA_RetCode ss_HT_PHASOR(void*st,FILE*f){return TA_HT_PHASOR_StateSave((struct TA_HT_PHASOR_State*)st,f);}
static TA_RetCode sl_HT_PHASOR(void**st,FILE*f){return TA_HT_PHASOR_StateLoad((struct TA_HT_PHASOR_State**)st,f);}
static TA_RetCode b_HT_SINE(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_HT_SINE(s,e, p[0],b,n, (double*)q[0], (double*)q[1]);}
static TA_RetCode f_HT_SINE(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_HT_SINE(s,e, p[0],b,n, (double*)q[0], (double*)q[1]);}
static int l_HT_SINE(const double*o){return TA_HT_SINE_Lookback();}
static TA_RetCode si_HT_SINE(void**st,const double*o){return TA_HT_SINE_StateInit((struct TA_HT_SINE_State**)st);}
static TA_RetCode st_HT_SINE(void*st,const double*p,void*const*q){return TA_HT_SINE_State((struct TA_HT_SINE_State*)st, p[0], (double*)q[0], (double*)q[1]);}
static TA_RetCode sb_HT_SINE(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_HT_SINE_BatchState((struct TA_HT_SINE_State*)st,s,e, p[0],b,n, (double*)q[0], (double*)q[1]);}
static TA_RetCode sf_HT_SINE(void**st){return TA_HT_SINE_StateFree((struct TA_HT_SINE_State**)st);}
static TA_RetCode ss_HT_SINE(void*st,FILE*f){return TA_HT_SINE_StateSave((struct TA_HT_SINE_State*)st,f);}
static TA_RetCode sl_HT_SINE(void**st,FILE*f){return TA_HT_SINE_StateLoad((struct TA_HT_SINE_State**)st,f);}
static TA_RetCode b_HT_TRENDLINE(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_HT_TRENDLINE(s,e, p[0],b,n, (double*)q[0]);}
static TA_RetCode f_HT_TRENDLINE(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_HT_TRENDLINE(s,e, p[0],b,n, (double*)q[0]);}
static int l_HT_TRENDLINE(const double*o){return TA_HT_TRENDLINE_Lookback();}
static TA_RetCode si_HT_TRENDLINE(void**st,const double*o){return TA_HT_TRENDLINE_StateInit((struct TA_HT_TRENDLINE_State**)st);}
static TA_RetCode st_HT_TRENDLINE(void*st,const double*p,void*const*q){return TA_HT_TRENDLINE_State((struct TA_HT_TRENDLINE_State*)st, p[0], (double*)q[0]);}
static TA_RetCode sb_HT_TRENDLINE(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_HT_TRENDLINE_BatchState((struct TA_HT_TRENDLINE_State*)st,s,e, p[0],b,n, (double*)q[0]);}
static TA_RetCode sf_HT_TRENDLINE(void**st){return TA_HT_TRENDLINE_StateFree((struct TA_HT_TRENDLINE_State**)st);}
static TA_RetCode ss_HT_TRENDLINE(void*st,FILE*f){return TA_HT_TRENDLINE_StateSave((struct TA_HT_TRENDLINE_State*)st,f);}
static TA_RetCode sl_HT_TRENDLINE(void**st,FILE*f){return TA_HT_TRENDLINE_StateLoad((struct TA_HT_TRENDLINE_State**)st,f);}
static TA_RetCode b_HT_TRENDMODE(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_HT_TRENDMODE(s,e, p[0],b,n, (int*)q[0]);}
static TA_RetCode f_HT_TRENDMODE(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_HT_TRENDMODE(s,e, p[0],b,n, (int*)q[0]);}
static int l_HT_TRENDMODE(const double*o){return TA_HT_TRENDMODE_Lookback();}
static TA_RetCode si_HT_TRENDMODE(void**st,const double*o){return TA_HT_TRENDMODE_StateInit((struct TA_HT_TRENDMODE_State**)st);}
static TA_RetCode st_HT_TRENDMODE(void*st,const double*p,void*const*q){return TA_HT_TRENDMODE_State((struct TA_HT_TRENDMODE_State*)st, p[0], (int*)q[0]);}
static TA_RetCode sb_HT_TRENDMODE(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_HT_TRENDMODE_BatchState((struct TA_HT_TRENDMODE_State*)st,s,e, p[0],b,n, (int*)q[0]);}
static TA_RetCode sf_HT_TRENDMODE(void**st){return TA_HT_TRENDMODE_StateFree((struct TA_HT_TRENDMODE_State**)st);}
static TA_RetCode ss_HT_TRENDMODE(void*st,FILE*f){return TA_HT_TRENDMODE_StateSave((struct TA_HT_TRENDMODE_State*)st,f);}
static TA_RetCode sl_HT_TRENDMODE(void**st,FILE*f){return TA_HT_TRENDMODE_StateLoad((struct TA_HT_TRENDMODE_State**)st,f);}
static TA_RetCode b_IMI(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_IMI(s,e, p[0], p[1], (int)o[0],b,n, (double*)q[0]);}
static TA_RetCode f_IMI(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_IMI(s,e, p[0], p[1], (int)o[0],b,n, (double*)q[0]);}
static int l_IMI(const double*o){return TA_IMI_Lookback((int)o[0]);}
static TA_RetCode si_IMI(void**st,const double*o){return TA_IMI_StateInit((struct TA_IMI_State**)st, (int)o[0]);}
static TA_RetCode st_IMI(void*st,const double*p,void*const*q){return TA_IMI_State((struct TA_IMI_State*)st, p[0], p[1], (double*)q[0]);}
static TA_RetCode sb_IMI(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_IMI_BatchState((struct TA_IMI_State*)st,s,e, p[0], p[1],b,n, (double*)q[0]);}
static TA_RetCode sf_IMI(void**st){return TA_IMI_StateFree((struct TA_IMI_State**)st);}
static TA_RetCode ss_IMI(void*st,FILE*f){return TA_IMI_StateSave((struct TA_IMI_State*)st,f);}
static TA_RetCode sl_IMI(void**st,FILE*f){return TA_IMI_StateLoad((struct TA_IMI_State**)st,f);}
static TA_RetCode b_KAMA(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_KAMA(s,e, p[0], (int)o[0],b,n, (double*)q[0]);}
static TA_RetCode f_KAMA(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_KAMA(s,e, p[0], (int)o[0],b,n, (double*)q[0]);}
static int l_KAMA(const double*o){return TA_KAMA_Lookback((int)o[0]);}
static TA_RetCode si_KAMA(void**st,const double*o){return TA_KAMA_StateInit((struct TA_KAMA_State**)st, (int)o[0]);}
static TA_RetCode st_KAMA(void*st,const double*p,void*const*q){return TA_KAMA_State((struct TA_KAMA_State*)st, p[0], (double*)q[0]);}
static TA_RetCode sb_KAMA(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_KAMA_BatchState((struct TA_KAMA_State*)st,s,e, p[0],b,n, (double*)q[0]);}
static TA_RetCode sf_KAMA(void**st){return TA_KAMA_StateFree((struct TA_KAMA_State**)st);}
static TA_RetCode ss_KAMA(void*st,FILE*f){return TA_KAMA_StateSave((struct TA_KAMA_State*)st,f);}
static TA_RetCode sl_KAMA(void**st,FILE*f){return TA_KAMA_StateLoad((struct TA_KAMA_State**)st,f);}
static TA_RetCode b_LINEARREG(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_LINEARREG(s,e, p[0], (int)o[0],b,n, (double*)q[0]);}
static TA_RetCode f_LINEARREG(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_LINEARREG(s,e, p[0], (int)o[0],b,n, (double*)q[0]);}
static int l_LINEARREG(const double*o){return TA_LINEARREG_Lookback((int)o[0]);}
static TA_RetCode si_LINEARREG(void**st,const double*o){return TA_LINEARREG_StateInit((struct TA_LINEARREG_State**)st, (int)o[0]);}
static TA_RetCode st_LINEARREG(void*st,const double*p,void*const*q){return TA_LINEARREG_State((struct TA_LINEARREG_State*)st, p[0], (double*)q[0]);}
static TA_RetCode sb_LINEARREG(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_LINEARREG_BatchState((struct TA_LINEARREG_State*)st,s,e, p[0],b,n, (double*)q[0]);}
static TA_RetCode sf_LINEARREG(void**st){return TA_LINEARREG_StateFree((struct TA_LINEARREG_State**)st);}
static TA_RetCode ss_LINEARREG(void*st,FILE*f){return TA_LINEARREG_StateSave((struct TA_LINEARREG_State*)st,f);}
static TA_RetCode sl_LINEARREG(void**st,FILE*f){return TA_LINEARREG_StateLoad((struct TA_LINEARREG_State**)st,f);}
static TA_RetCode b_LINEARREG_ANGLE(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_LINEARREG_ANGLE(s,e, p[0], (int)o[0],b,n, (double*)q[0]);}
static TA_RetCode f_LINEARREG_ANGLE(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_LINEARREG_ANGLE(s,e, p[0], (int)o[0],b,n, (double*)q[0]);}
static int l_LINEARREG_ANGLE(const double*o){return TA_LINEARREG_ANGLE_Lookback((int)o[0]);}
static TA_RetCode si_LINEARREG_ANGLE(void**st,const double*o){return TA_LINEARREG_ANGLE_StateInit((struct TA_LINEARREG_ANGLE_State**)st, (int)o[0]);}
static TA_RetCode st_LINEARREG_ANGLE(void*st,const double*p,void*const*q){return TA_LINEARREG_ANGLE_State((struct TA_LINEARREG_ANGLE_State*)st, p[0], (double*)q[0]);}
static TA_RetCode sb_LINEARREG_ANGLE(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_LINEARREG_ANGLE_BatchState((struct TA_LINEARREG_ANGLE_State*)st,s,e, p[0],b,n, (double*)q[0]);}
static TA_RetCode sf_LINEARREG_ANGLE(void**st){return TA_LINEARREG_ANGLE_StateFree((struct TA_LINEARREG_ANGLE_State**)st);}
static TA_RetCode ss_LINEARREG_ANGLE(void*st,FILE*f){return TA_LINEARREG_ANGLE_StateSave((struct TA_LINEARREG_ANGLE_State*)st,f);}
static TA_RetCode sl_LINEARREG_ANGLE(void**st,FILE*f){return TA_LINEARREG_ANGLE_StateLoad((struct TA_LINEARREG_ANGLE_State**)st,f);}
static TA_RetCode b_LINEARREG_INTERCEPT(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_LINEARREG_INTERCEPT(s,e, p[0], (int)o[0],b,n, (double*)q[0]);}
static TA_RetCode f_LINEARREG_INTERCEPT(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_LINEARREG_INTERCEPT(s,e, p[0], (int)o[0],b,n, (double*)q[0]);}
static int l_LINEARREG_INTERCEPT(const double*o){return TA_LINEARREG_INTERCEPT_Lookback((int)o[0]);}
static TA_RetCode si_LINEARREG_INTERCEPT(void**st,const double*o){return TA_LINEARREG_INTERCEPT_StateInit((struct TA_LINEARREG_INTERCEPT_State**)st, (int)o[0]);}
static TA_RetCode st_LINEARREG_INTERCEPT(void*st,const double*p,void*const*q){return TA_LINEARREG_INTERCEPT_State((struct TA_LINEARREG_INTERCEPT_State*)st, p[0], (double*)q[0]);}
static TA_RetCode sb_LINEARREG_INTERCEPT(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_LINEARREG_INTERCEPT_BatchState((struct TA_LINEARREG_INTERCEPT_State*)st,s,e, p[0],b,n, (double*)q[0]);}
static TA_RetCode sf_LINEARREG_INTERCEPT(void**st){return TA_LINEARREG_INTERCEPT_StateFree((struct TA_LINEARREG_INTERCEPT_State**)st);}
static TA_RetCode ss_LINEARREG_INTERCEPT(void*st,FILE*f){return TA_LINEARREG_INTERCEPT_StateSave((struct TA_LINEARREG_INTERCEPT_State*)st,f);}
static TA_RetCode sl_LINEARREG_INTERCEPT(void**st,FILE*f){return TA_LINEARREG_INTERCEPT_StateLoad((struct TA_LINEARREG_INTERCEPT_State**)st,f);}
static TA_RetCode b_LINEARREG_SLOPE(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_LINEARREG_SLOPE(s,e, p[0], (int)o[0],b,n, (double*)q[0]);}
static TA_RetCode f_LINEARREG_SLOPE(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_LINEARREG_SLOPE(s,e, p[0], (int)o[0],b,n, (double*)q[0]);}
static int l_LINEARREG_SLOPE(const double*o){return TA_LINEARREG_SLOPE_Lookback((int)o[0]);}
static TA_RetCode si_LINEARREG_SLOPE(void**st,const double*o){return TA_LINEARREG_SLOPE_StateInit((struct TA_LINEARREG_SLOPE_State**)st, (int)o[0]);}
static TA_RetCode st_LINEARREG_SLOPE(void*st,const double*p,void*const*q){return TA_LINEARREG_SLOPE_State((struct TA_LINEARREG_SLOPE_State*)st, p[0], (double*)q[0]);}
static TA_RetCode sb_LINEARREG_SLOPE(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_LINEARREG_SLOPE_BatchState((struct TA_LINEARREG_SLOPE_State*)st,s,e, p[0],b,n, (double*)q[0]);}
static TA_RetCode sf_LINEARREG_SLOPE(void**st){return TA_LINEARREG_SLOPE_StateFree((struct TA_LINEARREG_SLOPE_State**)st);}
static TA_RetCode ss_LINEARREG_SLOPE(void*st,FILE*f){return TA_LINEARREG_SLOPE_StateSave((struct TA_LINEARREG_SLOPE_State*)st,f);}
static TA_RetCode sl_LINEARREG_SLOPE(void**st,FILE*f){return TA_LINEARREG_SLOPE_StateLoad((struct TA_LINEARREG_SLOPE_State**)st,f);}
static TA_RetCode b_LN(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_LN(s,e, p[0],b,n, (double*)q[0]);}
static TA_RetCode f_LN(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_LN(s,e, p[0],b,n, (double*)q[0]);}
static int l_LN(const double*o){return TA_LN_Lookback();}
static TA_RetCode si_LN(void**st,const double*o){return TA_LN_StateInit((struct TA_LN_State**)st);}
static TA_RetCode st_LN(void*st,const double*p,void*const*q){return TA_LN_State((struct TA_LN_State*)st, p[0], (double*)q[0]);}
static TA_RetCode sb_LN(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_LN_BatchState((struct TA_LN_State*)st,s,e, p[0],b,n, (double*)q[0]);}
static TA_RetCode sf_LN(void**st){return TA_LN_StateFree((struct TA_LN_State**)st);}
static TA_RetCode ss_LN(void*st,FILE*f){return TA_LN_StateSave((struct TA_LN_State*)st,f);}
static TA_RetCode sl_LN(void**st,FILE*f){return TA_LN_StateLoad((struct TA_LN_State**)st,f);}
static TA_RetCode b_LOG10(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_LOG10(s,e, p[0],b,n, (double*)q[0]);}
static TA_RetCode f_LOG10(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_LOG10(s,e, p[0],b,n, (double*)q[0]);}
static int l_LOG10(const double*o){return TA_LOG10_Lookback();}
static TA_RetCode si_LOG10(void**st,const double*o){return TA_LOG10_StateInit((struct TA_LOG10_State**)st);}
static TA_RetCode st_LOG10(void*st,const double*p,void*const*q){return TA_LOG10_State((struct TA_LOG10_State*)st, p[0], (double*)q[0]);}
static TA_RetCode sb_LOG10(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_LOG10_BatchState((struct TA_LOG10_State*)st,s,e, p[0],b,n, (double*)q[0]);}
static TA_RetCode sf_LOG10(void**st){return TA_LOG10_StateFree((struct TA_LOG10_State**)st);}
static TA_RetCode ss_LOG10(void*st,FILE*f){return TA_LOG10_StateSave((struct TA_LOG10_State*)st,f);}
static TA_RetCode sl_LOG10(void**st,FILE*f){return TA_LOG10_StateLoad((struct TA_LOG10_State**)st,f);}
static TA_RetCode b_MA(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_MA(s,e, p[0], (int)o[0], (TA_MAType)(int)o[1],b,n, (double*)q[0]);}
static TA_RetCode f_MA(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_MA(s,e, p[0], (int)o[0], (TA_MAType)(int)o[1],b,n, (double*)q[0]);}
static int l_MA(const double*o){return TA_MA_Lookback((int)o[0], (TA_MAType)(int)o[1]);}
static TA_RetCode si_MA(void**st,const double*o){return TA_MA_StateInit((struct TA_MA_State**)st, (int)o[0], (TA_MAType)(int)o[1]);}
static TA_RetCode st_MA(void*st,const double*p,void*const*q){return TA_MA_State((struct TA_MA_State*)st, p[0], (double*)q[0]);}
static TA_RetCode sb_MA(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_MA_BatchState((struct TA_MA_State*)st,s,e, p[0],b,n, (double*)q[0]);}
static TA_RetCode sf_MA(void**st){return TA_MA_StateFree((struct TA_MA_State**)st);}
static TA_RetCode ss_MA(void*st,FILE*f){return TA_MA_StateSave((struct TA_MA_State*)st,f);}
static TA_RetCode sl_MA(void**st,FILE*f){return TA_MA_StateLoad((struct TA_MA_State**)st,f);}
static TA_RetCode b_MACD(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_MACD(s,e, p[0], (int)o[0], (int)o[1], (int)o[2],b,n, (double*)q[0], (double*)q[1], (double*)q[2]);}
static TA_RetCode f_MACD(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_MACD(s,e, p[0], (int)o[0], (int)o[1], (int)o[2],b,n, (double*)q[0], (double*)q[1], (double*)q[2]);}
static int l_MACD(const double*o){return TA_MACD_Lookback((int)o[0], (int)o[1], (int)o[2]);}
static TA_RetCode si_MACD(void**st,const double*o){return TA_MACD_StateInit((struct TA_MACD_State**)st, (int)o[0], (int)o[1], (int)o[2]);}
static TA_RetCode st_MACD(void*st,const double*p,void*const*q){return TA_MACD_State((struct TA_MACD_State*)st, p[0], (double*)q[0], (double*)q[1], (double*)q[2]);}
static TA_RetCode sb_MACD(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_MACD_BatchState((struct TA_MACD_State*)st,s,e, p[0],b,n, (double*)q[0], (double*)q[1], (double*)q[2]);}
static TA_RetCode sf_MACD(void**st){return TA_MACD_StateFree((struct TA_MACD_State**)st);}
static TA_RetCode ss_MACD(void*st,FILE*f){return TA_MACD_StateSave((struct TA_MACD_State*)st,f);}
static TA_RetCode sl_MACD(void**st,FILE*f){return TA_MACD_StateLoad((struct TA_MACD_State**)st,f);}
static TA_RetCode b_MACDEXT(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_MACDEXT(s,e, p[0], (int)o[0], (TA_MAType)(int)o[1], (int)o[2], (TA_MAType)(int)o[3], (int)o[4], (TA_MAType)(int)o[5],b,n, (double*)q[0], (double*)q[1], (double*)q[2]);}
static TA_RetCode f_MACDEXT(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_MACDEXT(s,e, p[0], (int)o[0], (TA_MAType)(int)o[1], (int)o[2], (TA_MAType)(int)o[3], (int)o[4], (TA_MAType)(int)o[5],b,n, (double*)q[0], (double*)q[1], (double*)q[2]);}
static int l_MACDEXT(const double*o){return TA_MACDEXT_Lookback((int)o[0], (TA_MAType)(int)o[1], (int)o[2], (TA_MAType)(int)o[3], (int)o[4], (TA_MAType)(int)o[5]);}
static TA_RetCode si_MACDEXT(void**st,const double*o){return TA_MACDEXT_StateInit((struct TA_MACDEXT_State**)st, (int)o[0], (TA_MAType)(int)o[1], (int)o[2], (TA_MAType)(int)o[3], (int)o[4], (TA_MAType)(int)o[5]);}
static TA_RetCode st_MACDEXT(void*st,const double*p,void*const*q){return TA_MACDEXT_State((struct TA_MACDEXT_State*)st, p[0], (double*)q[0], (double*)q[1], (double*)q[2]);}
static TA_RetCode sb_MACDEXT(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_MACDEXT_BatchState((struct TA_MACDEXT_State*)st,s,e, p[0],b,n, (double*)q[0], (double*)q[1], (double*)q[2]);}
static TA_RetCode sf_MACDEXT(void**st){return TA_MACDEXT_StateFree((struct TA_MACDEXT_State**)st);}
static TA_RetCode ss_MACDEXT(void*st,FILE*f){return TA_MACDEXT_StateSave((struct TA_MACDEXT_State*)st,f);}
static TA_RetCode sl_MACDEXT(void**st,FILE*f){return TA_MACDEXT_StateLoad((struct TA_MACDEXT_State**)st,f);}
static TA_RetCode b_MACDFIX(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_MACDFIX(s,e, p[0], (int)o[0],b,n, (double*)q[0], (double*)q[1], (double*)q[2]);}
static TA_RetCode f_MACDFIX(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_MACDFIX(s,e, p[0], (int)o[0],b,n, (double*)q[0], (double*)q[1], (double*)q[2]);}
static int l_MACDFIX(const double*o){return TA_MACDFIX_Lookback((int)o[0]);}
static TA_RetCode si_MACDFIX(void**st,const double*o){return TA_MACDFIX_StateInit((struct TA_MACDFIX_State**)st, (int)o[0]);}
static TA_RetCode st_MACDFIX(void*st,const double*p,void*const*q){return TA_MACDFIX_State((struct TA_MACDFIX_State*)st, p[0], (double*)q[0], (double*)q[1], (double*)q[2]);}
static TA_RetCode sb_MACDFIX(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_MACDFIX_BatchState((struct TA_MACDFIX_State*)st,s,e, p[0],b,n, (double*)q[0], (double*)q[1], (double*)q[2]);}
static TA_RetCode sf_MACDFIX(void**st){return TA_MACDFIX_StateFree((struct TA_MACDFIX_State**)st);}
static TA_RetCode ss_MACDFIX(void*st,FILE*f){return TA_MACDFIX_StateSave((struct TA_MACDFIX_State*)st,f);}
static TA_RetCode sl_MACDFIX(void**st,FILE*f){return TA_MACDFIX_StateLoad((struct TA_MACDFIX_State**)st,f);}
static TA_RetCode b_MAMA(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_MAMA(s,e, p[0], o[0], o[1],b,n, (double*)q[0], (double*)q[1]);}
static TA_RetCode f_MAMA(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_MAMA(s,e, p[0], o[0], o[1],b,n, (double*)q[0], (double*)q[1]);}
static int l_MAMA(const double*o){return TA_MAMA_Lookback(o[0], o[1]);}
static TA_RetCode si_MAMA(void**st,const double*o){return TA_MAMA_StateInit((struct TA_MAMA_State**)st, o[0], o[1]);}
static TA_RetCode st_MAMA(void*st,const double*p,void*const*q){return TA_MAMA_State((struct TA_MAMA_State*)st, p[0], (double*)q[0], (double*)q[1]);}
static TA_RetCode sb_MAMA(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_MAMA_BatchState((struct TA_MAMA_State*)st,s,e, p[0],b,n, (double*)q[0], (double*)q[1]);}
static TA_RetCode sf_MAMA(void**st){return TA_MAMA_StateFree((struct TA_MAMA_State**)st);}
static TA_RetCode ss_MAMA(void*st,FILE*f){return TA_MAMA_StateSave((struct TA_MAMA_State*)st,f);}
static TA_RetCode sl_MAMA(void**st,FILE*f){return TA_MAMA_StateLoad((struct TA_MAMA_State**)st,f);}
static TA_RetCode b_MAVP(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_MAVP(s,e, p[0], p[1], (int)o[0], (int)o[1], (TA_MAType)(int)o[2],b,n, (double*)q[0]);}
static TA_RetCode f_MAVP(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_MAVP(s,e, p[0], p[1], (int)o[0], (int)o[1], (TA_MAType)(int)o[2],b,n, (double*)q[0]);}
static int l_MAVP(const double*o){return TA_MAVP_Lookback((int)o[0], (int)o[1], (TA_MAType)(int)o[2]);}
static TA_RetCode si_MAVP(void**st,const double*o){return TA_MAVP_StateInit((struct TA_MAVP_State**)st, (int)o[0], (int)o[1], (TA_MAType)(int)o[2]);}
static TA_RetCode st_MAVP(void*st,const double*p,void*const*q){return TA_MAVP_State((struct TA_MAVP_State*)st, p[0], p[1], (double*)q[0]);}
static TA_RetCode sb_MAVP(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_MAVP_BatchState((struct TA_MAVP_State*)st,s,e, p[0], p[1],b,n, (double*)q[0]);}
static TA_RetCode sf_MAVP(void**st){return TA_MAVP_StateFree((struct TA_MAVP_State**)st);}
static TA_RetCode ss_MAVP(void*st,FILE*f){return TA_MAVP_StateSave((struct TA_MAVP_State*)st,f);}
static TA_RetCode sl_MAVP(void**st,FILE*f){return TA_MAVP_StateLoad((struct TA_MAVP_State**)st,f);}
static TA_RetCode b_MAX(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_MAX(s,e, p[0], (int)o[0],b,n, (double*)q[0]);}
static TA_RetCode f_MAX(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_MAX(s,e, p[0], (int)o[0],b,n, (double*)q[0]);}
static int l_MAX(const double*o){return TA_MAX_Lookback((int)o[0]);}
static TA_RetCode si_MAX(void**st,const double*o){return TA_MAX_StateInit((struct TA_MAX_State**)st, (int)o[0]);}
static TA_RetCode st_MAX(void*st,const double*p,void*const*q){return TA_MAX_State((struct TA_MAX_State*)st, p[0], (double*)q[0]);}
static TA_RetCode sb_MAX(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_MAX_BatchState((struct TA_MAX_State*)st,s,e, p[0],b,n, (double*)q[0]);}
static TA_RetCode sf_MAX(void**st){return TA_MAX_StateFree((struct TA_MAX_State**)st);}
static TA_RetCode ss_MAX(void*st,FILE*f){return TA_MAX_StateSave((struct TA_MAX_State*)st,f);}
static TA_RetCode sl_MAX(void**st,FILE*f){return TA_MAX_StateLoad((struct TA_MAX_State**)st,f);}
static TA_RetCode b_MAXINDEX(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_MAXINDEX(s,e, p[0], (int)o[0],b,n, (int*)q[0]);}
static TA_RetCode f_MAXINDEX(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_MAXINDEX(s,e, p[0], (int)o[0],b,n, (int*)q[0]);}
static int l_MAXINDEX(const double*o){return TA_MAXINDEX_Lookback((int)o[0]);}
static TA_RetCode si_MAXINDEX(void**st,const double*o){return TA_MAXINDEX_StateInit((struct TA_MAXINDEX_State**)st, (int)o[0]);}
static TA_RetCode st_MAXINDEX(void*st,const double*p,void*const*q){return TA_MAXINDEX_State((struct TA_MAXINDEX_State*)st, p[0], (int*)q[0]);}
static TA_RetCode sb_MAXINDEX(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_MAXINDEX_BatchState((struct TA_MAXINDEX_State*)st,s,e, p[0],b,n, (int*)q[0]);}
static TA_RetCode sf_MAXINDEX(void**st){return TA_MAXINDEX_StateFree((struct TA_MAXINDEX_State**)st);}
static TA_RetCode ss_MAXINDEX(void*st,FILE*f){return TA_MAXINDEX_StateSave((struct TA_MAXINDEX_State*)st,f);}
static TA_RetCode sl_MAXINDEX(void**st,FILE*f){return TA_MAXINDEX_StateLoad((struct TA_MAXINDEX_State**)st,f);}
static TA_RetCode b_MEDPRICE(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_MEDPRICE(s,e, p[0], p[1],b,n, (double*)q[0]);}
static TA_RetCode f_MEDPRICE(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_MEDPRICE(s,e, p[0], p[1],b,n, (double*)q[0]);}
static int l_MEDPRICE(const double*o){return TA_MEDPRICE_Lookback();}
static TA_RetCode si_MEDPRICE(void**st,const double*o){return TA_MEDPRICE_StateInit((struct TA_MEDPRICE_State**)st);}
static TA_RetCode st_MEDPRICE(void*st,const double*p,void*const*q){return TA_MEDPRICE_State((struct TA_MEDPRICE_State*)st, p[0], p[1], (double*)q[0]);}
static TA_RetCode sb_MEDPRICE(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_MEDPRICE_BatchState((struct TA_MEDPRICE_State*)st,s,e, p[0], p[1],b,n, (double*)q[0]);}
static TA_RetCode sf_MEDPRICE(void**st){return TA_MEDPRICE_StateFree((struct TA_MEDPRICE_State**)st);}
static TA_RetCode ss_MEDPRICE(void*st,FILE*f){return TA_MEDPRICE_StateSave((struct TA_MEDPRICE_State*)st,f);}
static TA_RetCode sl_MEDPRICE(void**st,FILE*f){return TA_MEDPRICE_StateLoad((struct TA_MEDPRICE_State**)st,f);}
static TA_RetCode b_MFI(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_MFI(s,e, p[0], p[1], p[2], p[3], (int)o[0],b,n, (double*)q[0]);}
static TA_RetCode f_MFI(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_MFI(s,e, p[0], p[1], p[2], p[3], (int)o[0],b,n, (double*)q[0]);}
static int l_MFI(const double*o){return TA_MFI_Lookback((int)o[0]);}
static TA_RetCode si_MFI(void**st,const double*o){return TA_MFI_StateInit((struct TA_MFI_State**)st, (int)o[0]);}
static TA_RetCode st_MFI(void*st,const double*p,void*const*q){return TA_MFI_State((struct TA_MFI_State*)st, p[0], p[1], p[2], p[3], (double*)q[0]);}
static TA_RetCode sb_MFI(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_MFI_BatchState((struct TA_MFI_State*)st,s,e, p[0], p[1], p[2], p[3],b,n, (double*)q[0]);}
static TA_RetCode sf_MFI(void**st){return TA_MFI_StateFree((struct TA_MFI_State**)st);}
static TA_RetCode ss_MFI(void*st,FILE*f){return TA_MFI_StateSave((struct TA_MFI_State*)st,f);}
static TA_RetCode sl_MFI(void**st,FILE*f){return TA_MFI_StateLoad((struct TA_MFI_State**)st,f);}
static TA_RetCode b_MIDPOINT(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_MIDPOINT(s,e, p[0], (int)o[0],b,n, (double*)q[0]);}
static TA_RetCode f_MIDPOINT(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_MIDPOINT(s,e, p[0], (int)o[0],b,n, (double*)q[0]);}
static int l_MIDPOINT(const double*o){return TA_MIDPOINT_Lookback((int)o[0]);}
static TA_RetCode si_MIDPOINT(void**st,const double*o){return TA_MIDPOINT_StateInit((struct TA_MIDPOINT_State**)st, (int)o[0]);}
static TA_RetCode st_MIDPOINT(void*st,const double*p,void*const*q){return TA_MIDPOINT_State((struct TA_MIDPOINT_State*)st, p[0], (double*)q[0]);}
static TA_RetCode sb_MIDPOINT(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_MIDPOINT_BatchState((struct TA_MIDPOINT_State*)st,s,e, p[0],b,n, (double*)q[0]);}
static TA_RetCode sf_MIDPOINT(void**st){return TA_MIDPOINT_StateFree((struct TA_MIDPOINT_State**)st);}
static TA_RetCode ss_MIDPOINT(void*st,FILE*f){return TA_MIDPOINT_StateSave((struct TA_MIDPOINT_State*)st,f);}
static TA_RetCode sl_MIDPOINT(void**st,FILE*f){return TA_MIDPOINT_StateLoad((struct TA_MIDPOINT_State**)st,f);}
static TA_RetCode b_MIDPRICE(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_MIDPRICE(s,e, p[0], p[1], (int)o[0],b,n, (double*)q[0]);}
static TA_RetCode f_MIDPRICE(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_MIDPRICE(s,e, p[0], p[1], (int)o[0],b,n, (double*)q[0]);}
static int l_MIDPRICE(const double*o){return TA_MIDPRICE_Lookback((int)o[0]);}
static TA_RetCode si_MIDPRICE(void**st,const double*o){return TA_MIDPRICE_StateInit((struct TA_MIDPRICE_State**)st, (int)o[0]);}
static TA_RetCode st_MIDPRICE(void*st,const double*p,void*const*q){return TA_MIDPRICE_State((struct TA_MIDPRICE_State*)st, p[0], p[1], (double*)q[0]);}
static TA_RetCode sb_MIDPRICE(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_MIDPRICE_BatchState((struct TA_MIDPRICE_State*)st,s,e, p[0], p[1],b,n, (double*)q[0]);}
static TA_RetCode sf_MIDPRICE(void**st){return TA_MIDPRICE_StateFree((struct TA_MIDPRICE_State**)st);}
static TA_RetCode ss_MIDPRICE(void*st,FILE*f){return TA_MIDPRICE_StateSave((struct TA_MIDPRICE_State*)st,f);}
static TA_RetCode sl_MIDPRICE(void**st,FILE*f){return TA_MIDPRICE_StateLoad((struct TA_MIDPRICE_State**)st,f);}
static TA_RetCode b_MIN(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_MIN(s,e, p[0], (int)o[0],b,n, (double*)q[0]);}
static TA_RetCode f_MIN(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_MIN(s,e, p[0], (int)o[0],b,n, (double*)q[0]);}
static int l_MIN(const double*o){return TA_MIN_Lookback((int)o[0]);}
static TA_RetCode si_MIN(void**st,const double*o){return TA_MIN_StateInit((struct TA_MIN_State**)st, (int)o[0]);}
static TA_RetCode st_MIN(void*st,const double*p,void*const*q){return TA_MIN_State((struct TA_MIN_State*)st, p[0], (double*)q[0]);}
static TA_RetCode sb_MIN(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_MIN_BatchState((struct TA_MIN_State*)st,s,e, p[0],b,n, (double*)q[0]);}
static TA_RetCode sf_MIN(void**st){return TA_MIN_StateFree((struct TA_MIN_State**)st);}
static TA_RetCode ss_MIN(void*st,FILE*f){return TA_MIN_StateSave((struct TA_MIN_State*)st,f);}
static TA_RetCode sl_MIN(void**st,FILE*f){return TA_MIN_StateLoad((struct TA_MIN_State**)st,f);}
static TA_RetCode b_MININDEX(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_MININDEX(s,e, p[0], (int)o[0],b,n, (int*)q[0]);}
static TA_RetCode f_MININDEX(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_MININDEX(s,e, p[0], (int)o[0],b,n, (int*)q[0]);}
static int l_MININDEX(const double*o){return TA_MININDEX_Lookback((int)o[0]);}
static TA_RetCode si_MININDEX(void**st,const double*o){return TA_MININDEX_StateInit((struct TA_MININDEX_State**)st, (int)o[0]);}
static TA_RetCode st_MININDEX(void*st,const double*p,void*const*q){return TA_MININDEX_State((struct TA_MININDEX_State*)st, p[0], (int*)q[0]);}
static TA_RetCode sb_MININDEX(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_MININDEX_BatchState((struct TA_MININDEX_State*)st,s,e, p[0],b,n, (int*)q[0]);}
static TA_RetCode sf_MININDEX(void**st){return TA_MININDEX_StateFree((struct TA_MININDEX_State**)st);}
static TA_RetCode ss_MININDEX(void*st,FILE*f){return TA_MININDEX_StateSave((struct TA_MININDEX_State*)st,f);}
static TA_RetCode sl_MININDEX(void**st,FILE*f){return TA_MININDEX_StateLoad((struct TA_MININDEX_State**)st,f);}
static TA_RetCode b_MINMAX(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_MINMAX(s,e, p[0], (int)o[0],b,n, (double*)q[0], (double*)q[1]);}
static TA_RetCode f_MINMAX(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_MINMAX(s,e, p[0], (int)o[0],b,n, (double*)q[0], (double*)q[1]);}
static int l_MINMAX(const double*o){return TA_MINMAX_Lookback((int)o[0]);}
static TA_RetCode si_MINMAX(void**st,const double*o){return TA_MINMAX_StateInit((struct TA_MINMAX_State**)st, (int)o[0]);}
static TA_RetCode st_MINMAX(void*st,const double*p,void*const*q){return TA_MINMAX_State((struct TA_MINMAX_State*)st, p[0], (double*)q[0], (double*)q[1]);}
static TA_RetCode sb_MINMAX(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_MINMAX_BatchState((struct TA_MINMAX_State*)st,s,e, p[0],b,n, (double*)q[0], (double*)q[1]);}
static TA_RetCode sf_MINMAX(void**st){return TA_MINMAX_StateFree((struct TA_MINMAX_State**)st);}
static TA_RetCode ss_MINMAX(void*st,FILE*f){return TA_MINMAX_StateSave((struct TA_MINMAX_State*)st,f);}
static TA_RetCode sl_MINMAX(void**st,FILE*f){return TA_MINMAX_StateLoad((struct TA_MINMAX_State**)st,f);}
static TA_RetCode b_MINMAXINDEX(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_MINMAXINDEX(s,e, p[0], (int)o[0],b,n, (int*)q[0], (int*)q[1]);}
static TA_RetCode f_MINMAXINDEX(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_MINMAXINDEX(s,e, p[0], (int)o[0],b,n, (int*)q[0], (int*)q[1]);}
static int l_MINMAXINDEX(const double*o){return TA_MINMAXINDEX_Lookback((int)o[0]);}
static TA_RetCode si_MINMAXINDEX(void**st,const double*o){return TA_MINMAXINDEX_StateInit((struct TA_MINMAXINDEX_State**)st, (int)o[0]);}
static TA_RetCode st_MINMAXINDEX(void*st,const double*p,void*const*q){return TA_MINMAXINDEX_State((struct TA_MINMAXINDEX_State*)st, p[0], (int*)q[0], (int*)q[1]);}
static TA_RetCode sb_MINMAXINDEX(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_MINMAXINDEX_BatchState((struct TA_MINMAXINDEX_State*)st,s,e, p[0],b,n, (int*)q[0], (int*)q[1]);}
static TA_RetCode sf_MINMAXINDEX(void**st){return TA_MINMAXINDEX_StateFree((struct TA_MINMAXINDEX_State**)st);}
static TA_RetCode ss_MINMAXINDEX(void*st,FILE*f){return TA_MINMAXINDEX_StateSave((struct TA_MINMAXINDEX_State*)st,f);}
static TA_RetCode sl_MINMAXINDEX(void**st,FILE*f){return TA_MINMAXINDEX_StateLoad((struct TA_MINMAXINDEX_State**)st,f);}
static TA_RetCode b_MINUS_DI(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_MINUS_DI(s,e, p[0], p[1], p[2], (int)o[0],b,n, (double*)q[0]);}
static TA_RetCode f_MINUS_DI(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_MINUS_DI(s,e, p[0], p[1], p[2], (int)o[0],b,n, (double*)q[0]);}
static int l_MINUS_DI(const double*o){return TA_MINUS_DI_Lookback((int)o[0]);}
static TA_RetCode si_MINUS_DI(void**st,const double*o){return TA_MINUS_DI_StateInit((struct TA_MINUS_DI_State**)st, (int)o[0]);}
static TA_RetCode st_MINUS_DI(void*st,const double*p,void*const*q){return TA_MINUS_DI_State((struct TA_MINUS_DI_State*)st, p[0], p[1], p[2], (double*)q[0]);}
static TA_RetCode sb_MINUS_DI(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_MINUS_DI_BatchState((struct TA_MINUS_DI_State*)st,s,e, p[0], p[1], p[2],b,n, (double*)q[0]);}
static TA_RetCode sf_MINUS_DI(void**st){return TA_MINUS_DI_StateFree((struct TA_MINUS_DI_State**)st);}
static TA_RetCode ss_MINUS_DI(void*st,FILE*f){return TA_MINUS_DI_StateSave((struct TA_MINUS_DI_State*)st,f);}
static TA_RetCode sl_MINUS_DI(void**st,FILE*f){return TA_MINUS_DI_StateLoad((struct TA_MINUS_DI_State**)st,f);}
static TA_RetCode b_MINUS_DM(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_MINUS_DM(s,e, p[0], p[1], (int)o[0],b,n, (double*)q[0]);}
static TA_RetCode f_MINUS_DM(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_MINUS_DM(s,e, p[0], p[1], (int)o[0],b,n, (double*)q[0]);}
static int l_MINUS_DM(const double*o){return TA_MINUS_DM_Lookback((int)o[0]);}
static TA_RetCode si_MINUS_DM(void**st,const double*o){return TA_MINUS_DM_StateInit((struct TA_MINUS_DM_State**)st, (int)o[0]);}
static TA_RetCode st_MINUS_DM(void*st,const double*p,void*const*q){return TA_MINUS_DM_State((struct TA_MINUS_DM_State*)st, p[0], p[1], (double*)q[0]);}
static TA_RetCode sb_MINUS_DM(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_MINUS_DM_BatchState((struct TA_MINUS_DM_State*)st,s,e, p[0], p[1],b,n, (double*)q[0]);}
static TA_RetCode sf_MINUS_DM(void**st){return TA_MINUS_DM_StateFree((struct TA_MINUS_DM_State**)st);}
static TA_RetCode ss_MINUS_DM(void*st,FILE*f){return TA_MINUS_DM_StateSave((struct TA_MINUS_DM_State*)st,f);}
static TA_RetCode sl_MINUS_DM(void**st,FILE*f){return TA_MINUS_DM_StateLoad((struct TA_MINUS_DM_State**)st,f);}
static TA_RetCode b_MOM(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_MOM(s,e, p[0], (int)o[0],b,n, (double*)q[0]);}
static TA_RetCode f_MOM(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_MOM(s,e, p[0], (int)o[0],b,n, (double*)q[0]);}
static int l_MOM(const double*o){return TA_MOM_Lookback((int)o[0]);}
static TA_RetCode si_MOM(void**st,const double*o){return TA_MOM_StateInit((struct TA_MOM_State**)st, (int)o[0]);}
static TA_RetCode st_MOM(void*st,const double*p,void*const*q){return TA_MOM_State((struct TA_MOM_State*)st, p[0], (double*)q[0]);}
static TA_RetCode sb_MOM(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_MOM_BatchState((struct TA_MOM_State*)st,s,e, p[0],b,n, (double*)q[0]);}
static TA_RetCode sf_MOM(void**st){return TA_MOM_StateFree((struct TA_MOM_State**)st);}
static TA_RetCode ss_MOM(void*st,FILE*f){return TA_MOM_StateSave((struct TA_MOM_State*)st,f);}
static TA_RetCode sl_MOM(void**st,FILE*f){return TA_MOM_StateLoad((struct TA_MOM_State**)st,f);}
static TA_RetCode b_MULT(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_MULT(s,e, p[0], p[1],b,n, (double*)q[0]);}
static TA_RetCode f_MULT(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_MULT(s,e, p[0], p[1],b,n, (double*)q[0]);}
static int l_MULT(const double*o){return TA_MULT_Lookback();}
static TA_RetCode si_MULT(void**st,const double*o){return TA_MULT_StateInit((struct TA_MULT_State**)st);}
static TA_RetCode st_MULT(void*st,const double*p,void*const*q){return TA_MULT_State((struct TA_MULT_State*)st, p[0], p[1], (double*)q[0]);}
static TA_RetCode sb_MULT(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_MULT_BatchState((struct TA_MULT_State*)st,s,e, p[0], p[1],b,n, (double*)q[0]);}
static TA_RetCode sf_MULT(void**st){return TA_MULT_StateFree((struct TA_MULT_State**)st);}
static TA_RetCode ss_MULT(void*st,FILE*f){return TA_MULT_StateSave((struct TA_MULT_State*)st,f);}
static TA_RetCode sl_MULT(void**st,FILE*f){return TA_MULT_StateLoad((struct TA_MULT_State**)st,f);}
static TA_RetCode b_NATR(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_NATR(s,e, p[0], p[1], p[2], (int)o[0],b,n, (double*)q[0]);}
static TA_RetCode f_NATR(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_NATR(s,e, p[0], p[1], p[2], (int)o[0],b,n, (double*)q[0]);}
static int l_NATR(const double*o){return TA_NATR_Lookback((int)o[0]);}
static TA_RetCode si_NATR(void**st,const double*o){return TA_NATR_StateInit((struct TA_NATR_State**)st, (int)o[0]);}
static TA_RetCode st_NATR(void*st,const double*p,void*const*q){return TA_NATR_State((struct TA_NATR_State*)st, p[0], p[1], p[2], (double*)q[0]);}
static TA_RetCode sb_NATR(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_NATR_BatchState((struct TA_NATR_State*)st,s,e, p[0], p[1], p[2],b,n, (double*)q[0]);}
static TA_RetCode sf_NATR(void**st){return TA_NATR_StateFree((struct TA_NATR_State**)st);}
static TA_RetCode ss_NATR(void*st,FILE*f){return TA_NATR_StateSave((struct TA_NATR_State*)st,f);}
static TA_RetCode sl_NATR(void**st,FILE*f){return TA_NATR_StateLoad((struct TA_NATR_State**)st,f);}
static TA_RetCode b_NVI(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_NVI(s,e, p[0], p[1],b,n, (double*)q[0]);}
static TA_RetCode f_NVI(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_NVI(s,e, p[0], p[1],b,n, (double*)q[0]);}
static int l_NVI(const double*o){return TA_NVI_Lookback();}
static TA_RetCode si_NVI(void**st,const double*o){return TA_NVI_StateInit((struct TA_NVI_State**)st);}
static TA_RetCode st_NVI(void*st,const double*p,void*const*q){return TA_NVI_State((struct TA_NVI_State*)st, p[0], p[1], (double*)q[0]);}
static TA_RetCode sb_NVI(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_NVI_BatchState((struct TA_NVI_State*)st,s,e, p[0], p[1],b,n, (double*)q[0]);}
static TA_RetCode sf_NVI(void**st){return TA_NVI_StateFree((struct TA_NVI_State**)st);}
static TA_RetCode ss_NVI(void*st,FILE*f){return TA_NVI_StateSave((struct TA_NVI_State*)st,f);}
static TA_RetCode sl_NVI(void**st,FILE*f){return TA_NVI_StateLoad((struct TA_NVI_State**)st,f);}
static TA_RetCode b_OBV(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_OBV(s,e, p[0], p[1],b,n, (double*)q[0]);}
static TA_RetCode f_OBV(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_OBV(s,e, p[0], p[1],b,n, (double*)q[0]);}
static int l_OBV(const double*o){return TA_OBV_Lookback();}
static TA_RetCode si_OBV(void**st,const double*o){return TA_OBV_StateInit((struct TA_OBV_State**)st);}
static TA_RetCode st_OBV(void*st,const double*p,void*const*q){return TA_OBV_State((struct TA_OBV_State*)st, p[0], p[1], (double*)q[0]);}
static TA_RetCode sb_OBV(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_OBV_BatchState((struct TA_OBV_State*)st,s,e, p[0], p[1],b,n, (double*)q[0]);}
static TA_RetCode sf_OBV(void**st){return TA_OBV_StateFree((struct TA_OBV_State**)st);}
static TA_RetCode ss_OBV(void*st,FILE*f){return TA_OBV_StateSave((struct TA_OBV_State*)st,f);}
static TA_RetCode sl_OBV(void**st,FILE*f){return TA_OBV_StateLoad((struct TA_OBV_State**)st,f);}
static TA_RetCode b_PLUS_DI(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_PLUS_DI(s,e, p[0], p[1], p[2], (int)o[0],b,n, (double*)q[0]);}
static TA_RetCode f_PLUS_DI(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_PLUS_DI(s,e, p[0], p[1], p[2], (int)o[0],b,n, (double*)q[0]);}
static int l_PLUS_DI(const double*o){return TA_PLUS_DI_Lookback((int)o[0]);}
static TA_RetCode si_PLUS_DI(void**st,const double*o){return TA_PLUS_DI_StateInit((struct TA_PLUS_DI_State**)st, (int)o[0]);}
static TA_RetCode st_PLUS_DI(void*st,const double*p,void*const*q){return TA_PLUS_DI_State((struct TA_PLUS_DI_State*)st, p[0], p[1], p[2], (double*)q[0]);}
static TA_RetCode sb_PLUS_DI(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_PLUS_DI_BatchState((struct TA_PLUS_DI_State*)st,s,e, p[0], p[1], p[2],b,n, (double*)q[0]);}
static TA_RetCode sf_PLUS_DI(void**st){return TA_PLUS_DI_StateFree((struct TA_PLUS_DI_State**)st);}
static TA_RetCode ss_PLUS_DI(void*st,FILE*f){return TA_PLUS_DI_StateSave((struct TA_PLUS_DI_State*)st,f);}
static TA_RetCode sl_PLUS_DI(void**st,FILE*f){return TA_PLUS_DI_StateLoad((struct TA_PLUS_DI_State**)st,f);}
static TA_RetCode b_PLUS_DM(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_PLUS_DM(s,e, p[0], p[1], (int)o[0],b,n, (double*)q[0]);}
static TA_RetCode f_PLUS_DM(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_PLUS_DM(s,e, p[0], p[1], (int)o[0],b,n, (double*)q[0]);}
static int l_PLUS_DM(const double*o){return TA_PLUS_DM_Lookback((int)o[0]);}
static TA_RetCode si_PLUS_DM(void**st,const double*o){return TA_PLUS_DM_StateInit((struct TA_PLUS_DM_State**)st, (int)o[0]);}
static TA_RetCode st_PLUS_DM(void*st,const double*p,void*const*q){return TA_PLUS_DM_State((struct TA_PLUS_DM_State*)st, p[0], p[1], (double*)q[0]);}
static TA_RetCode sb_PLUS_DM(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_PLUS_DM_BatchState((struct TA_PLUS_DM_State*)st,s,e, p[0], p[1],b,n, (double*)q[0]);}
static TA_RetCode sf_PLUS_DM(void**st){return TA_PLUS_DM_StateFree((struct TA_PLUS_DM_State**)st);}
static TA_RetCode ss_PLUS_DM(void*st,FILE*f){return TA_PLUS_DM_StateSave((struct TA_PLUS_DM_State*)st,f);}
static TA_RetCode sl_PLUS_DM(void**st,FILE*f){return TA_PLUS_DM_StateLoad((struct TA_PLUS_DM_State**)st,f);}
static TA_RetCode b_PPO(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_PPO(s,e, p[0], (int)o[0], (int)o[1], (TA_MAType)(int)o[2],b,n, (double*)q[0]);}
static TA_RetCode f_PPO(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_PPO(s,e, p[0], (int)o[0], (int)o[1], (TA_MAType)(int)o[2],b,n, (double*)q[0]);}
static int l_PPO(const double*o){return TA_PPO_Lookback((int)o[0], (int)o[1], (TA_MAType)(int)o[2]);}
static TA_RetCode si_PPO(void**st,const double*o){return TA_PPO_StateInit((struct TA_PPO_State**)st, (int)o[0], (int)o[1], (TA_MAType)(int)o[2]);}
static TA_RetCode st_PPO(void*st,const double*p,void*const*q){return TA_PPO_State((struct TA_PPO_State*)st, p[0], (double*)q[0]);}
static TA_RetCode sb_PPO(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_PPO_BatchState((struct TA_PPO_State*)st,s,e, p[0],b,n, (double*)q[0]);}
static TA_RetCode sf_PPO(void**st){return TA_PPO_StateFree((struct TA_PPO_State**)st);}
static TA_RetCode ss_PPO(void*st,FILE*f){return TA_PPO_StateSave((struct TA_PPO_State*)st,f);}
static TA_RetCode sl_PPO(void**st,FILE*f){return TA_PPO_StateLoad((struct TA_PPO_State**)st,f);}
static TA_RetCode b_PVI(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_PVI(s,e, p[0], p[1],b,n, (double*)q[0]);}
static TA_RetCode f_PVI(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_PVI(s,e, p[0], p[1],b,n, (double*)q[0]);}
static int l_PVI(const double*o){return TA_PVI_Lookback();}
static TA_RetCode si_PVI(void**st,const double*o){return TA_PVI_StateInit((struct TA_PVI_State**)st);}
static TA_RetCode st_PVI(void*st,const double*p,void*const*q){return TA_PVI_State((struct TA_PVI_State*)st, p[0], p[1], (double*)q[0]);}
static TA_RetCode sb_PVI(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_PVI_BatchState((struct TA_PVI_State*)st,s,e, p[0], p[1],b,n, (double*)q[0]);}
static TA_RetCode sf_PVI(void**st){return TA_PVI_StateFree((struct TA_PVI_State**)st);}
static TA_RetCode ss_PVI(void*st,FILE*f){return TA_PVI_StateSave((struct TA_PVI_State*)st,f);}
static TA_RetCode sl_PVI(void**st,FILE*f){return TA_PVI_StateLoad((struct TA_PVI_State**)st,f);}
static TA_RetCode b_PVT(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_PVT(s,e, p[0], p[1],b,n, (double*)q[0]);}
static TA_RetCode f_PVT(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_PVT(s,e, p[0], p[1],b,n, (double*)q[0]);}
static int l_PVT(const double*o){return TA_PVT_Lookback();}
static TA_RetCode si_PVT(void**st,const double*o){return TA_PVT_StateInit((struct TA_PVT_State**)st);}
static TA_RetCode st_PVT(void*st,const double*p,void*const*q){return TA_PVT_State((struct TA_PVT_State*)st, p[0], p[1], (double*)q[0]);}
static TA_RetCode sb_PVT(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_PVT_BatchState((struct TA_PVT_State*)st,s,e, p[0], p[1],b,n, (double*)q[0]);}
static TA_RetCode sf_PVT(void**st){return TA_PVT_StateFree((struct TA_PVT_State**)st);}
static TA_RetCode ss_PVT(void*st,FILE*f){return TA_PVT_StateSave((struct TA_PVT_State*)st,f);}
static TA_RetCode sl_PVT(void**st,FILE*f){return TA_PVT_StateLoad((struct TA_PVT_State**)st,f);}
static TA_RetCode b_ROC(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_ROC(s,e, p[0], (int)o[0],b,n, (double*)q[0]);}
static TA_RetCode f_ROC(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_ROC(s,e, p[0], (int)o[0],b,n, (double*)q[0]);}
static int l_ROC(const double*o){return TA_ROC_Lookback((int)o[0]);}
static TA_RetCode si_ROC(void**st,const double*o){return TA_ROC_StateInit((struct TA_ROC_State**)st, (int)o[0]);}
static TA_RetCode st_ROC(void*st,const double*p,void*const*q){return TA_ROC_State((struct TA_ROC_State*)st, p[0], (double*)q[0]);}
static TA_RetCode sb_ROC(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_ROC_BatchState((struct TA_ROC_State*)st,s,e, p[0],b,n, (double*)q[0]);}
static TA_RetCode sf_ROC(void**st){return TA_ROC_StateFree((struct TA_ROC_State**)st);}
static TA_RetCode ss_ROC(void*st,FILE*f){return TA_ROC_StateSave((struct TA_ROC_State*)st,f);}
static TA_RetCode sl_ROC(void**st,FILE*f){return TA_ROC_StateLoad((struct TA_ROC_State**)st,f);}
static TA_RetCode b_ROCP(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_ROCP(s,e, p[0], (int)o[0],b,n, (double*)q[0]);}
static TA_RetCode f_ROCP(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_ROCP(s,e, p[0], (int)o[0],b,n, (double*)q[0]);}
static int l_ROCP(const double*o){return TA_ROCP_Lookback((int)o[0]);}
static TA_RetCode si_ROCP(void**st,const double*o){return TA_ROCP_StateInit((struct TA_ROCP_State**)st, (int)o[0]);}
static TA_RetCode st_ROCP(void*st,const double*p,void*const*q){return TA_ROCP_State((struct TA_ROCP_State*)st, p[0], (double*)q[0]);}
static TA_RetCode sb_ROCP(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_ROCP_BatchState((struct TA_ROCP_State*)st,s,e, p[0],b,n, (double*)q[0]);}
static TA_RetCode sf_ROCP(void**st){return TA_ROCP_StateFree((struct TA_ROCP_State**)st);}
static TA_RetCode ss_ROCP(void*st,FILE*f){return TA_ROCP_StateSave((struct TA_ROCP_State*)st,f);}
static TA_RetCode sl_ROCP(void**st,FILE*f){return TA_ROCP_StateLoad((struct TA_ROCP_State**)st,f);}
static TA_RetCode b_ROCR(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_ROCR(s,e, p[0], (int)o[0],b,n, (double*)q[0]);}
static TA_RetCode f_ROCR(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_ROCR(s,e, p[0], (int)o[0],b,n, (double*)q[0]);}
static int l_ROCR(const double*o){return TA_ROCR_Lookback((int)o[0]);}
static TA_RetCode si_ROCR(void**st,const double*o){return TA_ROCR_StateInit((struct TA_ROCR_State**)st, (int)o[0]);}
static TA_RetCode st_ROCR(void*st,const double*p,void*const*q){return TA_ROCR_State((struct TA_ROCR_State*)st, p[0], (double*)q[0]);}
static TA_RetCode sb_ROCR(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_ROCR_BatchState((struct TA_ROCR_State*)st,s,e, p[0],b,n, (double*)q[0]);}
static TA_RetCode sf_ROCR(void**st){return TA_ROCR_StateFree((struct TA_ROCR_State**)st);}
static TA_RetCode ss_ROCR(void*st,FILE*f){return TA_ROCR_StateSave((struct TA_ROCR_State*)st,f);}
static TA_RetCode sl_ROCR(void**st,FILE*f){return TA_ROCR_StateLoad((struct TA_ROCR_State**)st,f);}
static TA_RetCode b_ROCR100(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_ROCR100(s,e, p[0], (int)o[0],b,n, (double*)q[0]);}
static TA_RetCode f_ROCR100(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_ROCR100(s,e, p[0], (int)o[0],b,n, (double*)q[0]);}
static int l_ROCR100(const double*o){return TA_ROCR100_Lookback((int)o[0]);}
static TA_RetCode si_ROCR100(void**st,const double*o){return TA_ROCR100_StateInit((struct TA_ROCR100_State**)st, (int)o[0]);}
static TA_RetCode st_ROCR100(void*st,const double*p,void*const*q){return TA_ROCR100_State((struct TA_ROCR100_State*)st, p[0], (double*)q[0]);}
static TA_RetCode sb_ROCR100(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_ROCR100_BatchState((struct TA_ROCR100_State*)st,s,e, p[0],b,n, (double*)q[0]);}
static TA_RetCode sf_ROCR100(void**st){return TA_ROCR100_StateFree((struct TA_ROCR100_State**)st);}
static TA_RetCode ss_ROCR100(void*st,FILE*f){return TA_ROCR100_StateSave((struct TA_ROCR100_State*)st,f);}
static TA_RetCode sl_ROCR100(void**st,FILE*f){return TA_ROCR100_StateLoad((struct TA_ROCR100_State**)st,f);}
static TA_RetCode b_RSI(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_RSI(s,e, p[0], (int)o[0],b,n, (double*)q[0]);}
static TA_RetCode f_RSI(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_RSI(s,e, p[0], (int)o[0],b,n, (double*)q[0]);}
static int l_RSI(const double*o){return TA_RSI_Lookback((int)o[0]);}
static TA_RetCode si_RSI(void**st,const double*o){return TA_RSI_StateInit((struct TA_RSI_State**)st, (int)o[0]);}
static TA_RetCode st_RSI(void*st,const double*p,void*const*q){return TA_RSI_State((struct TA_RSI_State*)st, p[0], (double*)q[0]);}
static TA_RetCode sb_RSI(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_RSI_BatchState((struct TA_RSI_State*)st,s,e, p[0],b,n, (double*)q[0]);}
static TA_RetCode sf_RSI(void**st){return TA_RSI_StateFree((struct TA_RSI_State**)st);}
static TA_RetCode ss_RSI(void*st,FILE*f){return TA_RSI_StateSave((struct TA_RSI_State*)st,f);}
static TA_RetCode sl_RSI(void**st,FILE*f){return TA_RSI_StateLoad((struct TA_RSI_State**)st,f);}
static TA_RetCode b_SAR(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_SAR(s,e, p[0], p[1], o[0], o[1],b,n, (double*)q[0]);}
static TA_RetCode f_SAR(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_SAR(s,e, p[0], p[1], o[0], o[1],b,n, (double*)q[0]);}
static int l_SAR(const double*o){return TA_SAR_Lookback(o[0], o[1]);}
static TA_RetCode si_SAR(void**st,const double*o){return TA_SAR_StateInit((struct TA_SAR_State**)st, o[0], o[1]);}
static TA_RetCode st_SAR(void*st,const double*p,void*const*q){return TA_SAR_State((struct TA_SAR_State*)st, p[0], p[1], (double*)q[0]);}
static TA_RetCode sb_SAR(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_SAR_BatchState((struct TA_SAR_State*)st,s,e, p[0], p[1],b,n, (double*)q[0]);}
static TA_RetCode sf_SAR(void**st){return TA_SAR_StateFree((struct TA_SAR_State**)st);}
static TA_RetCode ss_SAR(void*st,FILE*f){return TA_SAR_StateSave((struct TA_SAR_State*)st,f);}
static TA_RetCode sl_SAR(void**st,FILE*f){return TA_SAR_StateLoad((struct TA_SAR_State**)st,f);}
static TA_RetCode b_SAREXT(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_SAREXT(s,e, p[0], p[1], o[0], o[1], o[2], o[3], o[4], o[5], o[6], o[7],b,n, (double*)q[0]);}
static TA_RetCode f_SAREXT(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_SAREXT(s,e, p[0], p[1], o[0], o[1], o[2], o[3], o[4], o[5], o[6], o[7],b,n, (double*)q[0]);}
static int l_SAREXT(const double*o){return TA_SAREXT_Lookback(o[0], o[1], o[2], o[3], o[4], o[5], o[6], o[7]);}
static TA_RetCode si_SAREXT(void**st,const double*o){return TA_SAREXT_StateInit((struct TA_SAREXT_State**)st, o[0], o[1], o[2], o[3], o[4], o[5], o[6], o[7]);}
static TA_RetCode st_SAREXT(void*st,const double*p,void*const*q){return TA_SAREXT_State((struct TA_SAREXT_State*)st, p[0], p[1], (double*)q[0]);}
static TA_RetCode sb_SAREXT(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_SAREXT_BatchState((struct TA_SAREXT_State*)st,s,e, p[0], p[1],b,n, (double*)q[0]);}
static TA_RetCode sf_SAREXT(void**st){return TA_SAREXT_StateFree((struct TA_SAREXT_State**)st);}
static TA_RetCode ss_SAREXT(void*st,FILE*f){return TA_SAREXT_StateSave((struct TA_SAREXT_State*)st,f);}
static TA_RetCode sl_SAREXT(void**st,FILE*f){return TA_SAREXT_StateLoad((struct TA_SAREXT_State**)st,f);}
static TA_RetCode b_SIN(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_SIN(s,e, p[0],b,n, (double*)q[0]);}
static TA_RetCode f_SIN(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_SIN(s,e, p[0],b,n, (double*)q[0]);}
static int l_SIN(const double*o){return TA_SIN_Lookback();}
static TA_RetCode si_SIN(void**st,const double*o){return TA_SIN_StateInit((struct TA_SIN_State**)st);}
static TA_RetCode st_SIN(void*st,const double*p,void*const*q){return TA_SIN_State((struct TA_SIN_State*)st, p[0], (double*)q[0]);}
static TA_RetCode sb_SIN(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_SIN_BatchState((struct TA_SIN_State*)st,s,e, p[0],b,n, (double*)q[0]);}
static TA_RetCode sf_SIN(void**st){return TA_SIN_StateFree((struct TA_SIN_State**)st);}
static TA_RetCode ss_SIN(void*st,FILE*f){return TA_SIN_StateSave((struct TA_SIN_State*)st,f);}
static TA_RetCode sl_SIN(void**st,FILE*f){return TA_SIN_StateLoad((struct TA_SIN_State**)st,f);}
static TA_RetCode b_SINH(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_SINH(s,e, p[0],b,n, (double*)q[0]);}
static TA_RetCode f_SINH(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_SINH(s,e, p[0],b,n, (double*)q[0]);}
static int l_SINH(const double*o){return TA_SINH_Lookback();}
static TA_RetCode si_SINH(void**st,const double*o){return TA_SINH_StateInit((struct TA_SINH_State**)st);}
static TA_RetCode st_SINH(void*st,const double*p,void*const*q){return TA_SINH_State((struct TA_SINH_State*)st, p[0], (double*)q[0]);}
static TA_RetCode sb_SINH(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_SINH_BatchState((struct TA_SINH_State*)st,s,e, p[0],b,n, (double*)q[0]);}
static TA_RetCode sf_SINH(void**st){return TA_SINH_StateFree((struct TA_SINH_State**)st);}
static TA_RetCode ss_SINH(void*st,FILE*f){return TA_SINH_StateSave((struct TA_SINH_State*)st,f);}
static TA_RetCode sl_SINH(void**st,FILE*f){return TA_SINH_StateLoad((struct TA_SINH_State**)st,f);}
static TA_RetCode b_SMA(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_SMA(s,e, p[0], (int)o[0],b,n, (double*)q[0]);}
static TA_RetCode f_SMA(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_SMA(s,e, p[0], (int)o[0],b,n, (double*)q[0]);}
static int l_SMA(const double*o){return TA_SMA_Lookback((int)o[0]);}
static TA_RetCode si_SMA(void**st,const double*o){return TA_SMA_StateInit((struct TA_SMA_State**)st, (int)o[0]);}
static TA_RetCode st_SMA(void*st,const double*p,void*const*q){return TA_SMA_State((struct TA_SMA_State*)st, p[0], (double*)q[0]);}
static TA_RetCode sb_SMA(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_SMA_BatchState((struct TA_SMA_State*)st,s,e, p[0],b,n, (double*)q[0]);}
static TA_RetCode sf_SMA(void**st){return TA_SMA_StateFree((struct TA_SMA_State**)st);}
static TA_RetCode ss_SMA(void*st,FILE*f){return TA_SMA_StateSave((struct TA_SMA_State*)st,f);}
static TA_RetCode sl_SMA(void**st,FILE*f){return TA_SMA_StateLoad((struct TA_SMA_State**)st,f);}
static TA_RetCode b_SQRT(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_SQRT(s,e, p[0],b,n, (double*)q[0]);}
static TA_RetCode f_SQRT(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_SQRT(s,e, p[0],b,n, (double*)q[0]);}
static int l_SQRT(const double*o){return TA_SQRT_Lookback();}
static TA_RetCode si_SQRT(void**st,const double*o){return TA_SQRT_StateInit((struct TA_SQRT_State**)st);}
static TA_RetCode st_SQRT(void*st,const double*p,void*const*q){return TA_SQRT_State((struct TA_SQRT_State*)st, p[0], (double*)q[0]);}
static TA_RetCode sb_SQRT(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_SQRT_BatchState((struct TA_SQRT_State*)st,s,e, p[0],b,n, (double*)q[0]);}
static TA_RetCode sf_SQRT(void**st){return TA_SQRT_StateFree((struct TA_SQRT_State**)st);}
static TA_RetCode ss_SQRT(void*st,FILE*f){return TA_SQRT_StateSave((struct TA_SQRT_State*)st,f);}
static TA_RetCode sl_SQRT(void**st,FILE*f){return TA_SQRT_StateLoad((struct TA_SQRT_State**)st,f);}
static TA_RetCode b_STDDEV(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_STDDEV(s,e, p[0], (int)o[0], o[1],b,n, (double*)q[0]);}
static TA_RetCode f_STDDEV(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_STDDEV(s,e, p[0], (int)o[0], o[1],b,n, (double*)q[0]);}
static int l_STDDEV(const double*o){return TA_STDDEV_Lookback((int)o[0], o[1]);}
static TA_RetCode si_STDDEV(void**st,const double*o){return TA_STDDEV_StateInit((struct TA_STDDEV_State**)st, (int)o[0], o[1]);}
static TA_RetCode st_STDDEV(void*st,const double*p,void*const*q){return TA_STDDEV_State((struct TA_STDDEV_State*)st, p[0], (double*)q[0]);}
static TA_RetCode sb_STDDEV(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_STDDEV_BatchState((struct TA_STDDEV_State*)st,s,e, p[0],b,n, (double*)q[0]);}
static TA_RetCode sf_STDDEV(void**st){return TA_STDDEV_StateFree((struct TA_STDDEV_State**)st);}
static TA_RetCode ss_STDDEV(void*st,FILE*f){return TA_STDDEV_StateSave((struct TA_STDDEV_State*)st,f);}
static TA_RetCode sl_STDDEV(void**st,FILE*f){return TA_STDDEV_StateLoad((struct TA_STDDEV_State**)st,f);}
static TA_RetCode b_STOCH(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_STOCH(s,e, p[0], p[1], p[2], (int)o[0], (int)o[1], (TA_MAType)(int)o[2], (int)o[3], (TA_MAType)(int)o[4],b,n, (double*)q[0], (double*)q[1]);}
static TA_RetCode f_STOCH(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_STOCH(s,e, p[0], p[1], p[2], (int)o[0], (int)o[1], (TA_MAType)(int)o[2], (int)o[3], (TA_MAType)(int)o[4],b,n, (double*)q[0], (double*)q[1]);}
static int l_STOCH(const double*o){return TA_STOCH_Lookback((int)o[0], (int)o[1], (TA_MAType)(int)o[2], (int)o[3], (TA_MAType)(int)o[4]);}
static TA_RetCode si_STOCH(void**st,const double*o){return TA_STOCH_StateInit((struct TA_STOCH_State**)st, (int)o[0], (int)o[1], (TA_MAType)(int)o[2], (int)o[3], (TA_MAType)(int)o[4]);}
static TA_RetCode st_STOCH(void*st,const double*p,void*const*q){return TA_STOCH_State((struct TA_STOCH_State*)st, p[0], p[1], p[2], (double*)q[0], (double*)q[1]);}
static TA_RetCode sb_STOCH(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_STOCH_BatchState((struct TA_STOCH_State*)st,s,e, p[0], p[1], p[2],b,n, (double*)q[0], (double*)q[1]);}
static TA_RetCode sf_STOCH(void**st){return TA_STOCH_StateFree((struct TA_STOCH_State**)st);}
static TA_RetCode ss_STOCH(void*st,FILE*f){return TA_STOCH_StateSave((struct TA_STOCH_State*)st,f);}
static TA_RetCode sl_STOCH(void**st,FILE*f){return TA_STOCH_StateLoad((struct TA_STOCH_State**)st,f);}
static TA_RetCode b_STOCHF(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_STOCHF(s,e, p[0], p[1], p[2], (int)o[0], (int)o[1], (TA_MAType)(int)o[2],b,n, (double*)q[0], (double*)q[1]);}
static TA_RetCode f_STOCHF(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_STOCHF(s,e, p[0], p[1], p[2], (int)o[0], (int)o[1], (TA_MAType)(int)o[2],b,n, (double*)q[0], (double*)q[1]);}
static int l_STOCHF(const double*o){return TA_STOCHF_Lookback((int)o[0], (int)o[1], (TA_MAType)(int)o[2]);}
static TA_RetCode si_STOCHF(void**st,const double*o){return TA_STOCHF_StateInit((struct TA_STOCHF_State**)st, (int)o[0], (int)o[1], (TA_MAType)(int)o[2]);}
static TA_RetCode st_STOCHF(void*st,const double*p,void*const*q){return TA_STOCHF_State((struct TA_STOCHF_State*)st, p[0], p[1], p[2], (double*)q[0], (double*)q[1]);}
static TA_RetCode sb_STOCHF(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_STOCHF_BatchState((struct TA_STOCHF_State*)st,s,e, p[0], p[1], p[2],b,n, (double*)q[0], (double*)q[1]);}
static TA_RetCode sf_STOCHF(void**st){return TA_STOCHF_StateFree((struct TA_STOCHF_State**)st);}
static TA_RetCode ss_STOCHF(void*st,FILE*f){return TA_STOCHF_StateSave((struct TA_STOCHF_State*)st,f);}
static TA_RetCode sl_STOCHF(void**st,FILE*f){return TA_STOCHF_StateLoad((struct TA_STOCHF_State**)st,f);}
static TA_RetCode b_STOCHRSI(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_STOCHRSI(s,e, p[0], (int)o[0], (int)o[1], (int)o[2], (TA_MAType)(int)o[3],b,n, (double*)q[0], (double*)q[1]);}
static TA_RetCode f_STOCHRSI(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_STOCHRSI(s,e, p[0], (int)o[0], (int)o[1], (int)o[2], (TA_MAType)(int)o[3],b,n, (double*)q[0], (double*)q[1]);}
static int l_STOCHRSI(const double*o){return TA_STOCHRSI_Lookback((int)o[0], (int)o[1], (int)o[2], (TA_MAType)(int)o[3]);}
static TA_RetCode si_STOCHRSI(void**st,const double*o){return TA_STOCHRSI_StateInit((struct TA_STOCHRSI_State**)st, (int)o[0], (int)o[1], (int)o[2], (TA_MAType)(int)o[3]);}
static TA_RetCode st_STOCHRSI(void*st,const double*p,void*const*q){return TA_STOCHRSI_State((struct TA_STOCHRSI_State*)st, p[0], (double*)q[0], (double*)q[1]);}
static TA_RetCode sb_STOCHRSI(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_STOCHRSI_BatchState((struct TA_STOCHRSI_State*)st,s,e, p[0],b,n, (double*)q[0], (double*)q[1]);}
static TA_RetCode sf_STOCHRSI(void**st){return TA_STOCHRSI_StateFree((struct TA_STOCHRSI_State**)st);}
static TA_RetCode ss_STOCHRSI(void*st,FILE*f){return TA_STOCHRSI_StateSave((struct TA_STOCHRSI_State*)st,f);}
static TA_RetCode sl_STOCHRSI(void**st,FILE*f){return TA_STOCHRSI_StateLoad((struct TA_STOCHRSI_State**)st,f);}
static TA_RetCode b_SUB(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_SUB(s,e, p[0], p[1],b,n, (double*)q[0]);}
static TA_RetCode f_SUB(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_SUB(s,e, p[0], p[1],b,n, (double*)q[0]);}
static int l_SUB(const double*o){return TA_SUB_Lookback();}
static TA_RetCode si_SUB(void**st,const double*o){return TA_SUB_StateInit((struct TA_SUB_State**)st);}
static TA_RetCode st_SUB(void*st,const double*p,void*const*q){return TA_SUB_State((struct TA_SUB_State*)st, p[0], p[1], (double*)q[0]);}
static TA_RetCode sb_SUB(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_SUB_BatchState((struct TA_SUB_State*)st,s,e, p[0], p[1],b,n, (double*)q[0]);}
static TA_RetCode sf_SUB(void**st){return TA_SUB_StateFree((struct TA_SUB_State**)st);}
static TA_RetCode ss_SUB(void*st,FILE*f){return TA_SUB_StateSave((struct TA_SUB_State*)st,f);}
static TA_RetCode sl_SUB(void**st,FILE*f){return TA_SUB_StateLoad((struct TA_SUB_State**)st,f);}
static TA_RetCode b_SUM(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_SUM(s,e, p[0], (int)o[0],b,n, (double*)q[0]);}
static TA_RetCode f_SUM(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_SUM(s,e, p[0], (int)o[0],b,n, (double*)q[0]);}
static int l_SUM(const double*o){return TA_SUM_Lookback((int)o[0]);}
static TA_RetCode si_SUM(void**st,const double*o){return TA_SUM_StateInit((struct TA_SUM_State**)st, (int)o[0]);}
static TA_RetCode st_SUM(void*st,const double*p,void*const*q){return TA_SUM_State((struct TA_SUM_State*)st, p[0], (double*)q[0]);}
static TA_RetCode sb_SUM(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_SUM_BatchState((struct TA_SUM_State*)st,s,e, p[0],b,n, (double*)q[0]);}
static TA_RetCode sf_SUM(void**st){return TA_SUM_StateFree((struct TA_SUM_State**)st);}
static TA_RetCode ss_SUM(void*st,FILE*f){return TA_SUM_StateSave((struct TA_SUM_State*)st,f);}
static TA_RetCode sl_SUM(void**st,FILE*f){return TA_SUM_StateLoad((struct TA_SUM_State**)st,f);}
static TA_RetCode b_T3(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_T3(s,e, p[0], (int)o[0], o[1],b,n, (double*)q[0]);}
static TA_RetCode f_T3(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_T3(s,e, p[0], (int)o[0], o[1],b,n, (double*)q[0]);}
static int l_T3(const double*o){return TA_T3_Lookback((int)o[0], o[1]);}
static TA_RetCode si_T3(void**st,const double*o){return TA_T3_StateInit((struct TA_T3_State**)st, (int)o[0], o[1]);}
static TA_RetCode st_T3(void*st,const double*p,void*const*q){return TA_T3_State((struct TA_T3_State*)st, p[0], (double*)q[0]);}
static TA_RetCode sb_T3(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_T3_BatchState((struct TA_T3_State*)st,s,e, p[0],b,n, (double*)q[0]);}
static TA_RetCode sf_T3(void**st){return TA_T3_StateFree((struct TA_T3_State**)st);}
static TA_RetCode ss_T3(void*st,FILE*f){return TA_T3_StateSave((struct TA_T3_State*)st,f);}
static TA_RetCode sl_T3(void**st,FILE*f){return TA_T3_StateLoad((struct TA_T3_State**)st,f);}
static TA_RetCode b_TAN(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_TAN(s,e, p[0],b,n, (double*)q[0]);}
static TA_RetCode f_TAN(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_TAN(s,e, p[0],b,n, (double*)q[0]);}
static int l_TAN(const double*o){return TA_TAN_Lookback();}
static TA_RetCode si_TAN(void**st,const double*o){return TA_TAN_StateInit((struct TA_TAN_State**)st);}
static TA_RetCode st_TAN(void*st,const double*p,void*const*q){return TA_TAN_State((struct TA_TAN_State*)st, p[0], (double*)q[0]);}
static TA_RetCode sb_TAN(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_TAN_BatchState((struct TA_TAN_State*)st,s,e, p[0],b,n, (double*)q[0]);}
static TA_RetCode sf_TAN(void**st){return TA_TAN_StateFree((struct TA_TAN_State**)st);}
static TA_RetCode ss_TAN(void*st,FILE*f){return TA_TAN_StateSave((struct TA_TAN_State*)st,f);}
static TA_RetCode sl_TAN(void**st,FILE*f){return TA_TAN_StateLoad((struct TA_TAN_State**)st,f);}
static TA_RetCode b_TANH(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_TANH(s,e, p[0],b,n, (double*)q[0]);}
static TA_RetCode f_TANH(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_TANH(s,e, p[0],b,n, (double*)q[0]);}
static int l_TANH(const double*o){return TA_TANH_Lookback();}
static TA_RetCode si_TANH(void**st,const double*o){return TA_TANH_StateInit((struct TA_TANH_State**)st);}
static TA_RetCode st_TANH(void*st,const double*p,void*const*q){return TA_TANH_State((struct TA_TANH_State*)st, p[0], (double*)q[0]);}
static TA_RetCode sb_TANH(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_TANH_BatchState((struct TA_TANH_State*)st,s,e, p[0],b,n, (double*)q[0]);}
static TA_RetCode sf_TANH(void**st){return TA_TANH_StateFree((struct TA_TANH_State**)st);}
static TA_RetCode ss_TANH(void*st,FILE*f){return TA_TANH_StateSave((struct TA_TANH_State*)st,f);}
static TA_RetCode sl_TANH(void**st,FILE*f){return TA_TANH_StateLoad((struct TA_TANH_State**)st,f);}
static TA_RetCode b_TEMA(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_TEMA(s,e, p[0], (int)o[0],b,n, (double*)q[0]);}
static TA_RetCode f_TEMA(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_TEMA(s,e, p[0], (int)o[0],b,n, (double*)q[0]);}
static int l_TEMA(const double*o){return TA_TEMA_Lookback((int)o[0]);}
static TA_RetCode si_TEMA(void**st,const double*o){return TA_TEMA_StateInit((struct TA_TEMA_State**)st, (int)o[0]);}
static TA_RetCode st_TEMA(void*st,const double*p,void*const*q){return TA_TEMA_State((struct TA_TEMA_State*)st, p[0], (double*)q[0]);}
static TA_RetCode sb_TEMA(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_TEMA_BatchState((struct TA_TEMA_State*)st,s,e, p[0],b,n, (double*)q[0]);}
static TA_RetCode sf_TEMA(void**st){return TA_TEMA_StateFree((struct TA_TEMA_State**)st);}
static TA_RetCode ss_TEMA(void*st,FILE*f){return TA_TEMA_StateSave((struct TA_TEMA_State*)st,f);}
static TA_RetCode sl_TEMA(void**st,FILE*f){return TA_TEMA_StateLoad((struct TA_TEMA_State**)st,f);}
static TA_RetCode b_TRANGE(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_TRANGE(s,e, p[0], p[1], p[2],b,n, (double*)q[0]);}
static TA_RetCode f_TRANGE(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_TRANGE(s,e, p[0], p[1], p[2],b,n, (double*)q[0]);}
static int l_TRANGE(const double*o){return TA_TRANGE_Lookback();}
static TA_RetCode si_TRANGE(void**st,const double*o){return TA_TRANGE_StateInit((struct TA_TRANGE_State**)st);}
static TA_RetCode st_TRANGE(void*st,const double*p,void*const*q){return TA_TRANGE_State((struct TA_TRANGE_State*)st, p[0], p[1], p[2], (double*)q[0]);}
static TA_RetCode sb_TRANGE(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_TRANGE_BatchState((struct TA_TRANGE_State*)st,s,e, p[0], p[1], p[2],b,n, (double*)q[0]);}
static TA_RetCode sf_TRANGE(void**st){return TA_TRANGE_StateFree((struct TA_TRANGE_State**)st);}
static TA_RetCode ss_TRANGE(void*st,FILE*f){return TA_TRANGE_StateSave((struct TA_TRANGE_State*)st,f);}
static TA_RetCode sl_TRANGE(void**st,FILE*f){return TA_TRANGE_StateLoad((struct TA_TRANGE_State**)st,f);}
static TA_RetCode b_TRIMA(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_TRIMA(s,e, p[0], (int)o[0],b,n, (double*)q[0]);}
static TA_RetCode f_TRIMA(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_TRIMA(s,e, p[0], (int)o[0],b,n, (double*)q[0]);}
static int l_TRIMA(const double*o){return TA_TRIMA_Lookback((int)o[0]);}
static TA_RetCode si_TRIMA(void**st,const double*o){return TA_TRIMA_StateInit((struct TA_TRIMA_State**)st, (int)o[0]);}
static TA_RetCode st_TRIMA(void*st,const double*p,void*const*q){return TA_TRIMA_State((struct TA_TRIMA_State*)st, p[0], (double*)q[0]);}
static TA_RetCode sb_TRIMA(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_TRIMA_BatchState((struct TA_TRIMA_State*)st,s,e, p[0],b,n, (double*)q[0]);}
static TA_RetCode sf_TRIMA(void**st){return TA_TRIMA_StateFree((struct TA_TRIMA_State**)st);}
static TA_RetCode ss_TRIMA(void*st,FILE*f){return TA_TRIMA_StateSave((struct TA_TRIMA_State*)st,f);}
static TA_RetCode sl_TRIMA(void**st,FILE*f){return TA_TRIMA_StateLoad((struct TA_TRIMA_State**)st,f);}
static TA_RetCode b_TRIX(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_TRIX(s,e, p[0], (int)o[0],b,n, (double*)q[0]);}
static TA_RetCode f_TRIX(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_TRIX(s,e, p[0], (int)o[0],b,n, (double*)q[0]);}
static int l_TRIX(const double*o){return TA_TRIX_Lookback((int)o[0]);}
static TA_RetCode si_TRIX(void**st,const double*o){return TA_TRIX_StateInit((struct TA_TRIX_State**)st, (int)o[0]);}
static TA_RetCode st_TRIX(void*st,const double*p,void*const*q){return TA_TRIX_State((struct TA_TRIX_State*)st, p[0], (double*)q[0]);}
static TA_RetCode sb_TRIX(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_TRIX_BatchState((struct TA_TRIX_State*)st,s,e, p[0],b,n, (double*)q[0]);}
static TA_RetCode sf_TRIX(void**st){return TA_TRIX_StateFree((struct TA_TRIX_State**)st);}
static TA_RetCode ss_TRIX(void*st,FILE*f){return TA_TRIX_StateSave((struct TA_TRIX_State*)st,f);}
static TA_RetCode sl_TRIX(void**st,FILE*f){return TA_TRIX_StateLoad((struct TA_TRIX_State**)st,f);}
static TA_RetCode b_TSF(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_TSF(s,e, p[0], (int)o[0],b,n, (double*)q[0]);}
static TA_RetCode f_TSF(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_TSF(s,e, p[0], (int)o[0],b,n, (double*)q[0]);}
static int l_TSF(const double*o){return TA_TSF_Lookback((int)o[0]);}
static TA_RetCode si_TSF(void**st,const double*o){return TA_TSF_StateInit((struct TA_TSF_State**)st, (int)o[0]);}
static TA_RetCode st_TSF(void*st,const double*p,void*const*q){return TA_TSF_State((struct TA_TSF_State*)st, p[0], (double*)q[0]);}
static TA_RetCode sb_TSF(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_TSF_BatchState((struct TA_TSF_State*)st,s,e, p[0],b,n, (double*)q[0]);}
static TA_RetCode sf_TSF(void**st){return TA_TSF_StateFree((struct TA_TSF_State**)st);}
static TA_RetCode ss_TSF(void*st,FILE*f){return TA_TSF_StateSave((struct TA_TSF_State*)st,f);}
static TA_RetCode sl_TSF(void**st,FILE*f){return TA_TSF_StateLoad((struct TA_TSF_State**)st,f);}
static TA_RetCode b_TYPPRICE(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_TYPPRICE(s,e, p[0], p[1], p[2],b,n, (double*)q[0]);}
static TA_RetCode f_TYPPRICE(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_TYPPRICE(s,e, p[0], p[1], p[2],b,n, (double*)q[0]);}
static int l_TYPPRICE(const double*o){return TA_TYPPRICE_Lookback();}
static TA_RetCode si_TYPPRICE(void**st,const double*o){return TA_TYPPRICE_StateInit((struct TA_TYPPRICE_State**)st);}
static TA_RetCode st_TYPPRICE(void*st,const double*p,void*const*q){return TA_TYPPRICE_State((struct TA_TYPPRICE_State*)st, p[0], p[1], p[2], (double*)q[0]);}
static TA_RetCode sb_TYPPRICE(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_TYPPRICE_BatchState((struct TA_TYPPRICE_State*)st,s,e, p[0], p[1], p[2],b,n, (double*)q[0]);}
static TA_RetCode sf_TYPPRICE(void**st){return TA_TYPPRICE_StateFree((struct TA_TYPPRICE_State**)st);}
static TA_RetCode ss_TYPPRICE(void*st,FILE*f){return TA_TYPPRICE_StateSave((struct TA_TYPPRICE_State*)st,f);}
static TA_RetCode sl_TYPPRICE(void**st,FILE*f){return TA_TYPPRICE_StateLoad((struct TA_TYPPRICE_State**)st,f);}
static TA_RetCode b_ULTOSC(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_ULTOSC(s,e, p[0], p[1], p[2], (int)o[0], (int)o[1], (int)o[2],b,n, (double*)q[0]);}
static TA_RetCode f_ULTOSC(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_ULTOSC(s,e, p[0], p[1], p[2], (int)o[0], (int)o[1], (int)o[2],b,n, (double*)q[0]);}
static int l_ULTOSC(const double*o){return TA_ULTOSC_Lookback((int)o[0], (int)o[1], (int)o[2]);}
static TA_RetCode si_ULTOSC(void**st,const double*o){return TA_ULTOSC_StateInit((struct TA_ULTOSC_State**)st, (int)o[0], (int)o[1], (int)o[2]);}
static TA_RetCode st_ULTOSC(void*st,const double*p,void*const*q){return TA_ULTOSC_State((struct TA_ULTOSC_State*)st, p[0], p[1], p[2], (double*)q[0]);}
static TA_RetCode sb_ULTOSC(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_ULTOSC_BatchState((struct TA_ULTOSC_State*)st,s,e, p[0], p[1], p[2],b,n, (double*)q[0]);}
static TA_RetCode sf_ULTOSC(void**st){return TA_ULTOSC_StateFree((struct TA_ULTOSC_State**)st);}
static TA_RetCode ss_ULTOSC(void*st,FILE*f){return TA_ULTOSC_StateSave((struct TA_ULTOSC_State*)st,f);}
static TA_RetCode sl_ULTOSC(void**st,FILE*f){return TA_ULTOSC_StateLoad((struct TA_ULTOSC_State**)st,f);}
static TA_RetCode b_VAR(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_VAR(s,e, p[0], (int)o[0], o[1],b,n, (double*)q[0]);}
static TA_RetCode f_VAR(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_VAR(s,e, p[0], (int)o[0], o[1],b,n, (double*)q[0]);}
static int l_VAR(const double*o){return TA_VAR_Lookback((int)o[0], o[1]);}
static TA_RetCode si_VAR(void**st,const double*o){return TA_VAR_StateInit((struct TA_VAR_State**)st, (int)o[0], o[1]);}
static TA_RetCode st_VAR(void*st,const double*p,void*const*q){return TA_VAR_State((struct TA_VAR_State*)st, p[0], (double*)q[0]);}
static TA_RetCode sb_VAR(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_VAR_BatchState((struct TA_VAR_State*)st,s,e, p[0],b,n, (double*)q[0]);}
static TA_RetCode sf_VAR(void**st){return TA_VAR_StateFree((struct TA_VAR_State**)st);}
static TA_RetCode ss_VAR(void*st,FILE*f){return TA_VAR_StateSave((struct TA_VAR_State*)st,f);}
static TA_RetCode sl_VAR(void**st,FILE*f){return TA_VAR_StateLoad((struct TA_VAR_State**)st,f);}
static TA_RetCode b_WCLPRICE(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_WCLPRICE(s,e, p[0], p[1], p[2],b,n, (double*)q[0]);}
static TA_RetCode f_WCLPRICE(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_WCLPRICE(s,e, p[0], p[1], p[2],b,n, (double*)q[0]);}
static int l_WCLPRICE(const double*o){return TA_WCLPRICE_Lookback();}
static TA_RetCode si_WCLPRICE(void**st,const double*o){return TA_WCLPRICE_StateInit((struct TA_WCLPRICE_State**)st);}
static TA_RetCode st_WCLPRICE(void*st,const double*p,void*const*q){return TA_WCLPRICE_State((struct TA_WCLPRICE_State*)st, p[0], p[1], p[2], (double*)q[0]);}
static TA_RetCode sb_WCLPRICE(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_WCLPRICE_BatchState((struct TA_WCLPRICE_State*)st,s,e, p[0], p[1], p[2],b,n, (double*)q[0]);}
static TA_RetCode sf_WCLPRICE(void**st){return TA_WCLPRICE_StateFree((struct TA_WCLPRICE_State**)st);}
static TA_RetCode ss_WCLPRICE(void*st,FILE*f){return TA_WCLPRICE_StateSave((struct TA_WCLPRICE_State*)st,f);}
static TA_RetCode sl_WCLPRICE(void**st,FILE*f){return TA_WCLPRICE_StateLoad((struct TA_WCLPRICE_State**)st,f);}
static TA_RetCode b_WILLR(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_WILLR(s,e, p[0], p[1], p[2], (int)o[0],b,n, (double*)q[0]);}
static TA_RetCode f_WILLR(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_WILLR(s,e, p[0], p[1], p[2], (int)o[0],b,n, (double*)q[0]);}
static int l_WILLR(const double*o){return TA_WILLR_Lookback((int)o[0]);}
static TA_RetCode si_WILLR(void**st,const double*o){return TA_WILLR_StateInit((struct TA_WILLR_State**)st, (int)o[0]);}
static TA_RetCode st_WILLR(void*st,const double*p,void*const*q){return TA_WILLR_State((struct TA_WILLR_State*)st, p[0], p[1], p[2], (double*)q[0]);}
static TA_RetCode sb_WILLR(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_WILLR_BatchState((struct TA_WILLR_State*)st,s,e, p[0], p[1], p[2],b,n, (double*)q[0]);}
static TA_RetCode sf_WILLR(void**st){return TA_WILLR_StateFree((struct TA_WILLR_State**)st);}
static TA_RetCode ss_WILLR(void*st,FILE*f){return TA_WILLR_StateSave((struct TA_WILLR_State*)st,f);}
static TA_RetCode sl_WILLR(void**st,FILE*f){return TA_WILLR_StateLoad((struct TA_WILLR_State**)st,f);}
static TA_RetCode b_WLMA(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_WLMA(s,e, p[0], (int)o[0],b,n, (double*)q[0]);}
static TA_RetCode f_WLMA(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_WLMA(s,e, p[0], (int)o[0],b,n, (double*)q[0]);}
static int l_WLMA(const double*o){return TA_WLMA_Lookback((int)o[0]);}
static TA_RetCode si_WLMA(void**st,const double*o){return TA_WLMA_StateInit((struct TA_WLMA_State**)st, (int)o[0]);}
static TA_RetCode st_WLMA(void*st,const double*p,void*const*q){return TA_WLMA_State((struct TA_WLMA_State*)st, p[0], (double*)q[0]);}
static TA_RetCode sb_WLMA(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_WLMA_BatchState((struct TA_WLMA_State*)st,s,e, p[0],b,n, (double*)q[0]);}
static TA_RetCode sf_WLMA(void**st){return TA_WLMA_StateFree((struct TA_WLMA_State**)st);}
static TA_RetCode ss_WLMA(void*st,FILE*f){return TA_WLMA_StateSave((struct TA_WLMA_State*)st,f);}
static TA_RetCode sl_WLMA(void**st,FILE*f){return TA_WLMA_StateLoad((struct TA_WLMA_State**)st,f);}
static TA_RetCode b_WMA(int s,int e,const double*const*p,const double*o,int*b,int*n,void*const*q){return TA_WMA(s,e, p[0], (int)o[0],b,n, (double*)q[0]);}
static TA_RetCode f_WMA(int s,int e,const float*const*p,const double*o,int*b,int*n,void*const*q){return TA_S_WMA(s,e, p[0], (int)o[0],b,n, (double*)q[0]);}
static int l_WMA(const double*o){return TA_WMA_Lookback((int)o[0]);}
static TA_RetCode si_WMA(void**st,const double*o){return TA_WMA_StateInit((struct TA_WMA_State**)st, (int)o[0]);}
static TA_RetCode st_WMA(void*st,const double*p,void*const*q){return TA_WMA_State((struct TA_WMA_State*)st, p[0], (double*)q[0]);}
static TA_RetCode sb_WMA(void*st,int s,int e,const double*const*p,int*b,int*n,void*const*q){return TA_WMA_BatchState((struct TA_WMA_State*)st,s,e, p[0],b,n, (double*)q[0]);}
static TA_RetCode sf_WMA(void**st){return TA_WMA_StateFree((struct TA_WMA_State**)st);}
static TA_RetCode ss_WMA(void*st,FILE*f){return TA_WMA_StateSave((struct TA_WMA_State*)st,f);}
static TA_RetCode sl_WMA(void**st,FILE*f){return TA_WMA_StateLoad((struct TA_WMA_State**)st,f);}
const FD FTAB[]={
{"ACCBANDS","Accbands","Overlap Studies",1,(int)-1,3,{1,2,3},1,{{"optInTimePeriod",0,2,100000,20}},3,{{"outRealUpperBand",0},{"outRealMiddleBand",0},{"outRealLowerBand",0}},b_ACCBANDS,f_ACCBANDS,l_ACCBANDS,si_ACCBANDS,st_ACCBANDS,sb_ACCBANDS,sf_ACCBANDS,ss_ACCBANDS,sl_ACCBANDS},
{"ACOS","Acos","Math Transform",0,(int)-1,1,{6},0,{{0}},1,{{"outReal",0}},b_ACOS,f_ACOS,l_ACOS,si_ACOS,st_ACOS,sb_ACOS,sf_ACOS,ss_ACOS,sl_ACOS},
{"AD","Ad","Volume Indicators",0,(int)-1,4,{1,2,3,4},0,{{0}},1,{{"outReal",0}},b_AD,f_AD,l_AD,si_AD,st_AD,sb_AD,sf_AD,ss_AD,sl_AD},
{"ADD","Add","Math Operators",0,(int)-1,2,{6,6},0,{{0}},1,{{"outReal",0}},b_ADD,f_ADD,l_ADD,si_ADD,st_ADD,sb_ADD,sf_ADD,ss_ADD,sl_ADD},
{"ADOSC","AdOsc","Volume Indicators",0,(int)-1,4,{1,2,3,4},2,{{"optInFastPeriod",0,2,100000,3},{"optInSlowPeriod",0,2,100000,10}},1,{{"outReal",0}},b_ADOSC,f_ADOSC,l_ADOSC,si_ADOSC,st_ADOSC,sb_ADOSC,sf_ADOSC,ss_ADOSC,sl_ADOSC},
{"ADX","Adx","Momentum Indicators",2,(int)TA_FUNC_UNST_ADX,3,{1,2,3},1,{{"optInTimePeriod",0,2,100000,14}},1,{{"outReal",0}},b_ADX,f_ADX,l_ADX,si_ADX,st_ADX,sb_ADX,sf_ADX,ss_ADX,sl_ADX},
{"ADXR","Adxr","Momentum Indicators",2,(int)TA_FUNC_UNST_ADXR,3,{1,2,3},1,{{"optInTimePeriod",0,2,100000,14}},1,{{"outReal",0}},b_ADXR,f_ADXR,l_ADXR,si_ADXR,st_ADXR,sb_ADXR,sf_ADXR,ss_ADXR,sl_ADXR},
{"APO","Apo","Momentum Indicators",0,(int)-1,1,{6},3,{{"optInFastPeriod",0,2,100000,12},{"optInSlowPeriod",0,2,100000,26},{"optInMAType",2,0,9,0}},1,{{"outReal",0}},b_APO,f_APO,l_APO,si_APO,st_APO,sb_APO,sf_APO,ss_APO,sl_APO},
{"AROON","Aroon","Momentum Indicators",0,(int)-1,2,{1,2},1,{{"optInTimePeriod",0,2,100000,14}},2,{{"outAroonDown",0},{"outAroonUp",0}},b_AROON,f_AROON,l_AROON,si_AROON,st_AROON,sb_AROON,sf_AROON,ss_AROON,sl_AROON},
{"AROONOSC","AroonOsc","Momentum Indicators",0,(int)-1,2,{1,2},1,{{"optInTimePeriod",0,2,100000,14}},1,{{"outReal",0}},b_AROONOSC,f_AROONOSC,l_AROONOSC,si_AROONOSC,st_AROONOSC,sb_AROONOSC,sf_AROONOSC,ss_AROONOSC,sl_AROONOSC},
{"ASIN","Asin","Math Transform",0,(int)-1,1,{6},0,{{0}},1,{{"outReal",0}},b_ASIN,f_ASIN,l_ASIN,si_ASIN,st_ASIN,sb_ASIN,sf_ASIN,ss_ASIN,sl_ASIN},
{"ATAN","Atan","Math Transform",0,(int)-1,1,{6},0,{{0}},1,{{"outReal",0}},b_ATAN,f_ATAN,l_ATAN,si_ATAN,st_ATAN,sb_ATAN,sf_ATAN,ss_ATAN,sl_ATAN},
{"ATR","Atr","Volatility Indicators",2,(int)TA_FUNC_UNST_ATR,3,{1,2,3},1,{{"optInTimePeriod",0,1,100000,14}},1,{{"outReal",0}},b_ATR,f_ATR,l_ATR,si_ATR,st_ATR,sb_ATR,sf_ATR,ss_ATR,sl_ATR},
{"AVGPRICE","AvgPrice","Price Transform",1,(int)-1,4,{0,1,2,3},0,{{0}},1,{{"outReal",0}},b_AVGPRICE,f_AVGPRICE,l_AVGPRICE,si_AVGPRICE,st_AVGPRICE,sb_AVGPRICE,sf_AVGPRICE,ss_AVGPRICE,sl_AVGPRICE},
{"AVGDEV","AvgDev","Price Transform",1,(int)-1,1,{6},1,{{"optInTimePeriod",0,2,100000,14}},1,{{"outReal",0}},b_AVGDEV,f_AVGDEV,l_AVGDEV,si_AVGDEV,st_AVGDEV,sb_AVGDEV,sf_AVGDEV,ss_AVGDEV,sl_AVGDEV},
{"BBANDS","Bbands","Overlap Studies",1,(int)-1,1,{6},4,{{"optInTimePeriod",0,2,100000,5},{"optInNbDevUp",1,-3.0000000000000002e+37,3.0000000000000002e+37,2},{"optInNbDevDn",1,-3.0000000000000002e+37,3.0000000000000002e+37,2},{"optInMAType",2,0,9,0}},3,{{"outRealUpperBand",0},{"outRealMiddleBand",0},{"outRealLowerBand",0}},b_BBANDS,f_BBANDS,l_BBANDS,si_BBANDS,st_BBANDS,sb_BBANDS,sf_BBANDS,ss_BBANDS,sl_BBANDS},
{"BETA","Beta","Statistic Functions",0,(int)-1,2,{6,6},1,{{"optInTimePeriod",0,1,100000,5}},1,{{"outReal",0}},b_BETA,f_BETA,l_BETA,si_BETA,st_BETA,sb_BETA,sf_BETA,ss_BETA,sl_BETA},
{"BOP","Bop","Momentum Indicators",0,(int)-1,4,{0,1,2,3},0,{{0}},1,{{"outReal",0}},b_BOP,f_BOP,l_BOP,si_BOP,st_BOP,sb_BOP,sf_BOP,ss_BOP,sl_BOP},
{"CCI","Cci","Momentum Indicators",0,(int)-1,3,{1,2,3},1,{{"optInTimePeriod",0,2,100000,14}},1,{{"outReal",0}},b_CCI,f_CCI,l_CCI,si_CCI,st_CCI,sb_CCI,sf_CCI,ss_CCI,sl_CCI},
{"CDL2CROWS","Cdl2Crows","Pattern Recognition",4,(int)-1,4,{0,1,2,3},0,{{0}},1,{{"outInteger",1}},b_CDL2CROWS,f_CDL2CROWS,l_CDL2CROWS,si_CDL2CROWS,st_CDL2CROWS,sb_CDL2CROWS,sf_CDL2CROWS,ss_CDL2CROWS,sl_CDL2CROWS},
{"CDL3BLACKCROWS","Cdl3BlackCrows","Pattern Recognition",4,(int)-1,4,{0,1,2,3},0,{{0}},1,{{"outInteger",1}},b_CDL3BLACKCROWS,f_CDL3BLACKCROWS,l_CDL3BLACKCROWS,si_CDL3BLACKCROWS,st_CDL3BLACKCROWS,sb_CDL3BLACKCROWS,sf_CDL3BLACKCROWS,ss_CDL3BLACKCROWS,sl_CDL3BLACKCROWS},
{"CDL3INSIDE","Cdl3Inside","Pattern Recognition",4,(int)-1,4,{0,1,2,3},0,{{0}},1,{{"outInteger",1}},b_CDL3INSIDE,f_CDL3INSIDE,l_CDL3INSIDE,si_CDL3INSIDE,st_CDL3INSIDE,sb_CDL3INSIDE,sf_CDL3INSIDE,ss_CDL3INSIDE,sl_CDL3INSIDE},
{"CDL3LINESTRIKE","Cdl3LineStrike","Pattern Recognition",4,(int)-1,4,{0,1,2,3},0,{{0}},1,{{"outInteger",1}},b_CDL3LINESTRIKE,f_CDL3LINESTRIKE,l_CDL3LINESTRIKE,si_CDL3LINESTRIKE,st_CDL3LINESTRIKE,sb_CDL3LINESTRIKE,sf_CDL3LINESTRIKE,ss_CDL3LINESTRIKE,sl_CDL3LINESTRIKE},
{"CDL3OUTSIDE","Cdl3Outside","Pattern Recognition",4,(int)-1,4,{0,1,2,3},0,{{0}},1,{{"outInteger",1}},b_CDL3OUTSIDE,f_CDL3OUTSIDE,l_CDL3OUTSIDE,si_CDL3OUTSIDE,st_CDL3OUTSIDE,sb_CDL3OUTSIDE,sf_CDL3OUTSIDE,ss_CDL3OUTSIDE,sl_CDL3OUTSIDE},
{"CDL3STARSINSOUTH","Cdl3StarsInSouth","Pattern Recognition",4,(int)-1,4,{0,1,2,3},0,{{0}},1,{{"outInteger",1}},b_CDL3STARSINSOUTH,f_CDL3STARSINSOUTH,l_CDL3STARSINSOUTH,si_CDL3STARSINSOUTH,st_CDL3STARSINSOUTH,sb_CDL3STARSINSOUTH,sf_CDL3STARSINSOUTH,ss_CDL3STARSINSOUTH,sl_CDL3STARSINSOUTH},
{"CDL3WHITESOLDIERS","Cdl3WhiteSoldiers","Pattern Recognition",4,(int)-1,4,{0,1,2,3},0,{{0}},1,{{"outInteger",1}},b_CDL3WHITESOLDIERS,f_CDL3WHITESOLDIERS,l_CDL3WHITESOLDIERS,si_CDL3WHITESOLDIERS,st_CDL3WHITESOLDIERS,sb_CDL3WHITESOLDIERS,sf_CDL3WHITESOLDIERS,ss_CDL3WHITESOLDIERS,sl_CDL3WHITESOLDIERS},
{"CDLABANDONEDBABY","CdlAbandonedBaby","Pattern Recognition",4,(int)-1,4,{0,1,2,3},1,{{"optInPenetration",1,0,3.0000000000000002e+37,0.29999999999999999}},1,{{"outInteger",1}},b_CDLABANDONEDBABY,f_CDLABANDONEDBABY,l_CDLABANDONEDBABY,si_CDLABANDONEDBABY,st_CDLABANDONEDBABY,sb_CDLABANDONEDBABY,sf_CDLABANDONEDBABY,ss_CDLABANDONEDBABY,sl_CDLABANDONEDBABY},
{"CDLADVANCEBLOCK","CdlAdvanceBlock","Pattern Recognition",4,(int)-1,4,{0,1,2,3},0,{{0}},1,{{"outInteger",1}},b_CDLADVANCEBLOCK,f_CDLADVANCEBLOCK,l_CDLADVANCEBLOCK,si_CDLADVANCEBLOCK,st_CDLADVANCEBLOCK,sb_CDLADVANCEBLOCK,sf_CDLADVANCEBLOCK,ss_CDLADVANCEBLOCK,sl_CDLADVANCEBLOCK},
{"CDLBELTHOLD","CdlBeltHold","Pattern Recognition",4,(int)-1,4,{0,1,2,3},0,{{0}},1,{{"outInteger",1}},b_CDLBELTHOLD,f_CDLBELTHOLD,l_CDLBELTHOLD,si_CDLBELTHOLD,st_CDLBELTHOLD,sb_CDLBELTHOLD,sf_CDLBELTHOLD,ss_CDLBELTHOLD,sl_CDLBELTHOLD},
{"CDLBREAKAWAY","CdlBreakaway","Pattern Recognition",4,(int)-1,4,{0,1,2,3},0,{{0}},1,{{"outInteger",1}},b_CDLBREAKAWAY,f_CDLBREAKAWAY,l_CDLBREAKAWAY,si_CDLBREAKAWAY,st_CDLBREAKAWAY,sb_CDLBREAKAWAY,sf_CDLBREAKAWAY,ss_CDLBREAKAWAY,sl_CDLBREAKAWAY},
{"CDLCLOSINGMARUBOZU","CdlClosingMarubozu","Pattern Recognition",4,(int)-1,4,{0,1,2,3},0,{{0}},1,{{"outInteger",1}},b_CDLCLOSINGMARUBOZU,f_CDLCLOSINGMARUBOZU,l_CDLCLOSINGMARUBOZU,si_CDLCLOSINGMARUBOZU,st_CDLCLOSINGMARUBOZU,sb_CDLCLOSINGMARUBOZU,sf_CDLCLOSINGMARUBOZU,ss_CDLCLOSINGMARUBOZU,sl_CDLCLOSINGMARUBOZU},
{"CDLCONCEALBABYSWALL","CdlConcealBabysWall","Pattern Recognition",4,(int)-1,4,{0,1,2,3},0,{{0}},1,{{"outInteger",1}},b_CDLCONCEALBABYSWALL,f_CDLCONCEALBABYSWALL,l_CDLCONCEALBABYSWALL,si_CDLCONCEALBABYSWALL,st_CDLCONCEALBABYSWALL,sb_CDLCONCEALBABYSWALL,sf_CDLCONCEALBABYSWALL,ss_CDLCONCEALBABYSWALL,sl_CDLCONCEALBABYSWALL},
{"CDLCOUNTERATTACK","CdlCounterAttack","Pattern Recognition",4,(int)-1,4,{0,1,2,3},0,{{0}},1,{{"outInteger",1}},b_CDLCOUNTERATTACK,f_CDLCOUNTERATTACK,l_CDLCOUNTERATTACK,si_CDLCOUNTERATTACK,st_CDLCOUNTERATTACK,sb_CDLCOUNTERATTACK,sf_CDLCOUNTERATTACK,ss_CDLCOUNTERATTACK,sl_CDLCOUNTERATTACK},
{"CDLDARKCLOUDCOVER","CdlDarkCloudCover","Pattern Recognition",4,(int)-1,4,{0,1,2,3},1,{{"optInPenetration",1,0,3.0000000000000002e+37,0.5}},1,{{"outInteger",1}},b_CDLDARKCLOUDCOVER,f_CDLDARKCLOUDCOVER,l_CDLDARKCLOUDCOVER,si_CDLDARKCLOUDCOVER,st_CDLDARKCLOUDCOVER,sb_CDLDARKCLOUDCOVER,sf_CDLDARKCLOUDCOVER,ss_CDLDARKCLOUDCOVER,sl_CDLDARKCLOUDCOVER},
{"CDLDOJI","CdlDoji","Pattern Recognition",4,(int)-1,4,{0,1,2,3},0,{{0}},1,{{"outInteger",1}},b_CDLDOJI,f_CDLDOJI,l_CDLDOJI,si_CDLDOJI,st_CDLDOJI,sb_CDLDOJI,sf_CDLDOJI,ss_CDLDOJI,sl_CDLDOJI},
{"CDLDOJISTAR","CdlDojiStar","Pattern Recognition",4,(int)-1,4,{0,1,2,3},0,{{0}},1,{{"outInteger",1}},b_CDLDOJISTAR,f_CDLDOJISTAR,l_CDLDOJISTAR,si_CDLDOJISTAR,st_CDLDOJISTAR,sb_CDLDOJISTAR,sf_CDLDOJISTAR,ss_CDLDOJISTAR,sl_CDLDOJISTAR},
{"CDLDRAGONFLYDOJI","CdlDragonflyDoji","Pattern Recognition",4,(int)-1,4,{0,1,2,3},0,{{0}},1,{{"outInteger",1}},b_CDLDRAGONFLYDOJI,f_CDLDRAGONFLYDOJI,l_CDLDRAGONFLYDOJI,si_CDLDRAGONFLYDOJI,st_CDLDRAGONFLYDOJI,sb_CDLDRAGONFLYDOJI,sf_CDLDRAGONFLYDOJI,ss_CDLDRAGONFLYDOJI,sl_CDLDRAGONFLYDOJI},
{"CDLENGULFING","CdlEngulfing","Pattern Recognition",4,(int)-1,4,{0,1,2,3},0,{{0}},1,{{"outInteger",1}},b_CDLENGULFING,f_CDLENGULFING,l_CDLENGULFING,si_CDLENGULFING,st_CDLENGULFING,sb_CDLENGULFING,sf_CDLENGULFING,ss_CDLENGULFING,sl_CDLENGULFING},
{"CDLEVENINGDOJISTAR","CdlEveningDojiStar","Pattern Recognition",4,(int)-1,4,{0,1,2,3},1,{{"optInPenetration",1,0,3.0000000000000002e+37,0.29999999999999999}},1,{{"outInteger",1}},b_CDLEVENINGDOJISTAR,f_CDLEVENINGDOJISTAR,l_CDLEVENINGDOJISTAR,si_CDLEVENINGDOJISTAR,st_CDLEVENINGDOJISTAR,sb_CDLEVENINGDOJISTAR,sf_CDLEVENINGDOJISTAR,ss_CDLEVENINGDOJISTAR,sl_CDLEVENINGDOJISTAR},
{"CDLEVENINGSTAR","CdlEveningStar","Pattern Recognition",4,(int)-1,4,{0,1,2,3},1,{{"optInPenetration",1,0,3.0000000000000002e+37,0.29999999999999999}},1,{{"outInteger",1}},b_CDLEVENINGSTAR,f_CDLEVENINGSTAR,l_CDLEVENINGSTAR,si_CDLEVENINGSTAR,st_CDLEVENINGSTAR,sb_CDLEVENINGSTAR,sf_CDLEVENINGSTAR,ss_CDLEVENINGSTAR,sl_CDLEVENINGSTAR},
{"CDLGAPSIDESIDEWHITE","CdlGapSideSideWhite","Pattern Recognition",4,(int)-1,4,{0,1,2,3},0,{{0}},1,{{"outInteger",1}},b_CDLGAPSIDESIDEWHITE,f_CDLGAPSIDESIDEWHITE,l_CDLGAPSIDESIDEWHITE,si_CDLGAPSIDESIDEWHITE,st_CDLGAPSIDESIDEWHITE,sb_CDLGAPSIDESIDEWHITE,sf_CDLGAPSIDESIDEWHITE,ss_CDLGAPSIDESIDEWHITE,sl_CDLGAPSIDESIDEWHITE},
{"CDLGRAVESTONEDOJI","CdlGravestoneDoji","Pattern Recognition",4,(int)-1,4,{0,1,2,3},0,{{0}},1,{{"outInteger",1}},b_CDLGRAVESTONEDOJI,f_CDLGRAVESTONEDOJI,l_CDLGRAVESTONEDOJI,si_CDLGRAVESTONEDOJI,st_CDLGRAVESTONEDOJI,sb_CDLGRAVESTONEDOJI,sf_CDLGRAVESTONEDOJI,ss_CDLGRAVESTONEDOJI,sl_CDLGRAVESTONEDOJI},
{"CDLHAMMER","CdlHammer","Pattern Recognition",4,(int)-1,4,{0,1,2,3},0,{{0}},1,{{"outInteger",1}},b_CDLHAMMER,f_CDLHAMMER,l_CDLHAMMER,si_CDLHAMMER,st_CDLHAMMER,sb_CDLHAMMER,sf_CDLHAMMER,ss_CDLHAMMER,sl_CDLHAMMER},
{"CDLHANGINGMAN","CdlHangingMan","Pattern Recognition",4,(int)-1,4,{0,1,2,3},0,{{0}},1,{{"outInteger",1}},b_CDLHANGINGMAN,f_CDLHANGINGMAN,l_CDLHANGINGMAN,si_CDLHANGINGMAN,st_CDLHANGINGMAN,sb_CDLHANGINGMAN,sf_CDLHANGINGMAN,ss_CDLHANGINGMAN,sl_CDLHANGINGMAN},
{"CDLHARAMI","CdlHarami","Pattern Recognition",4,(int)-1,4,{0,1,2,3},0,{{0}},1,{{"outInteger",1}},b_CDLHARAMI,f_CDLHARAMI,l_CDLHARAMI,si_CDLHARAMI,st_CDLHARAMI,sb_CDLHARAMI,sf_CDLHARAMI,ss_CDLHARAMI,sl_CDLHARAMI},
{"CDLHARAMICROSS","CdlHaramiCross","Pattern Recognition",4,(int)-1,4,{0,1,2,3},0,{{0}},1,{{"outInteger",1}},b_CDLHARAMICROSS,f_CDLHARAMICROSS,l_CDLHARAMICROSS,si_CDLHARAMICROSS,st_CDLHARAMICROSS,sb_CDLHARAMICROSS,sf_CDLHARAMICROSS,ss_CDLHARAMICROSS,sl_CDLHARAMICROSS},
{"CDLHIGHWAVE","CdlHignWave","Pattern Recognition",4,(int)-1,4,{0,1,2,3},0,{{0}},1,{{"outInteger",1}},b_CDLHIGHWAVE,f_CDLHIGHWAVE,l_CDLHIGHWAVE,si_CDLHIGHWAVE,st_CDLHIGHWAVE,sb_CDLHIGHWAVE,sf_CDLHIGHWAVE,ss_CDLHIGHWAVE,sl_CDLHIGHWAVE},
{"CDLHIKKAKE","CdlHikkake","Pattern Recognition",4,(int)-1,4,{0,1,2,3},0,{{0}},1,{{"outInteger",1}},b_CDLHIKKAKE,f_CDLHIKKAKE,l_CDLHIKKAKE,si_CDLHIKKAKE,st_CDLHIKKAKE,sb_CDLHIKKAKE,sf_CDLHIKKAKE,ss_CDLHIKKAKE,sl_CDLHIKKAKE},
{"CDLHIKKAKEMOD","CdlHikkakeMod","Pattern Recognition",4,(int)-1,4,{0,1,2,3},0,{{0}},1,{{"outInteger",1}},b_CDLHIKKAKEMOD,f_CDLHIKKAKEMOD,l_CDLHIKKAKEMOD,si_CDLHIKKAKEMOD,st_CDLHIKKAKEMOD,sb_CDLHIKKAKEMOD,sf_CDLHIKKAKEMOD,ss_CDLHIKKAKEMOD,sl_CDLHIKKAKEMOD},
{"CDLHOMINGPIGEON","CdlHomingPigeon","Pattern Recognition",4,(int)-1,4,{0,1,2,3},0,{{0}},1,{{"outInteger",1}},b_CDLHOMINGPIGEON,f_CDLHOMINGPIGEON,l_CDLHOMINGPIGEON,si_CDLHOMINGPIGEON,st_CDLHOMINGPIGEON,sb_CDLHOMINGPIGEON,sf_CDLHOMINGPIGEON,ss_CDLHOMINGPIGEON,sl_CDLHOMINGPIGEON},
{"CDLIDENTICAL3CROWS","CdlIdentical3Crows","Pattern Recognition",4,(int)-1,4,{0,1,2,3},0,{{0}},1,{{"outInteger",1}},b_CDLIDENTICAL3CROWS,f_CDLIDENTICAL3CROWS,l_CDLIDENTICAL3CROWS,si_CDLIDENTICAL3CROWS,st_CDLIDENTICAL3CROWS,sb_CDLIDENTICAL3CROWS,sf_CDLIDENTICAL3CROWS,ss_CDLIDENTICAL3CROWS,sl_CDLIDENTICAL3CROWS},
{"CDLINNECK","CdlInNeck","Pattern Recognition",4,(int)-1,4,{0,1,2,3},0,{{0}},1,{{"outInteger",1}},b_CDLINNECK,f_CDLINNECK,l_CDLINNECK,si_CDLINNECK,st_CDLINNECK,sb_CDLINNECK,sf_CDLINNECK,ss_CDLINNECK,sl_CDLINNECK},
{"CDLINVERTEDHAMMER","CdlInvertedHammer","Pattern Recognition",4,(int)-1,4,{0,1,2,3},0,{{0}},1,{{"outInteger",1}},b_CDLINVERTEDHAMMER,f_CDLINVERTEDHAMMER,l_CDLINVERTEDHAMMER,si_CDLINVERTEDHAMMER,st_CDLINVERTEDHAMMER,sb_CDLINVERTEDHAMMER,sf_CDLINVERTEDHAMMER,ss_CDLINVERTEDHAMMER,sl_CDLINVERTEDHAMMER},
{"CDLKICKING","CdlKicking","Pattern Recognition",4,(int)-1,4,{0,1,2,3},0,{{0}},1,{{"outInteger",1}},b_CDLKICKING,f_CDLKICKING,l_CDLKICKING,si_CDLKICKING,st_CDLKICKING,sb_CDLKICKING,sf_CDLKICKING,ss_CDLKICKING,sl_CDLKICKING},
{"CDLKICKINGBYLENGTH","CdlKickingByLength","Pattern Recognition",4,(int)-1,4,{0,1,2,3},0,{{0}},1,{{"outInteger",1}},b_CDLKICKINGBYLENGTH,f_CDLKICKINGBYLENGTH,l_CDLKICKINGBYLENGTH,si_CDLKICKINGBYLENGTH,st_CDLKICKINGBYLENGTH,sb_CDLKICKINGBYLENGTH,sf_CDLKICKINGBYLENGTH,ss_CDLKICKINGBYLENGTH,sl_CDLKICKINGBYLENGTH},
{"CDLLADDERBOTTOM","CdlLadderBottom","Pattern Recognition",4,(int)-1,4,{0,1,2,3},0,{{0}},1,{{"outInteger",1}},b_CDLLADDERBOTTOM,f_CDLLADDERBOTTOM,l_CDLLADDERBOTTOM,si_CDLLADDERBOTTOM,st_CDLLADDERBOTTOM,sb_CDLLADDERBOTTOM,sf_CDLLADDERBOTTOM,ss_CDLLADDERBOTTOM,sl_CDLLADDERBOTTOM},
{"CDLLONGLEGGEDDOJI","CdlLongLeggedDoji","Pattern Recognition",4,(int)-1,4,{0,1,2,3},0,{{0}},1,{{"outInteger",1}},b_CDLLONGLEGGEDDOJI,f_CDLLONGLEGGEDDOJI,l_CDLLONGLEGGEDDOJI,si_CDLLONGLEGGEDDOJI,st_CDLLONGLEGGEDDOJI,sb_CDLLONGLEGGEDDOJI,sf_CDLLONGLEGGEDDOJI,ss_CDLLONGLEGGEDDOJI,sl_CDLLONGLEGGEDDOJI},
{"CDLLONGLINE","CdlLongLine","Pattern Recognition",4,(int)-1,4,{0,1,2,3},0,{{0}},1,{{"outInteger",1}},b_CDLLONGLINE,f_CDLLONGLINE,l_CDLLONGLINE,si_CDLLONGLINE,st_CDLLONGLINE,sb_CDLLONGLINE,sf_CDLLONGLINE,ss_CDLLONGLINE,sl_CDLLONGLINE},
{"CDLMARUBOZU","CdlMarubozu","Pattern Recognition",4,(int)-1,4,{0,1,2,3},0,{{0}},1,{{"outInteger",1}},b_CDLMARUBOZU,f_CDLMARUBOZU,l_CDLMARUBOZU,si_CDLMARUBOZU,st_CDLMARUBOZU,sb_CDLMARUBOZU,sf_CDLMARUBOZU,ss_CDLMARUBOZU,sl_CDLMARUBOZU},
{"CDLMATCHINGLOW","CdlMatchingLow","Pattern Recognition",4,(int)-1,4,{0,1,2,3},0,{{0}},1,{{"outInteger",1}},b_CDLMATCHINGLOW,f_CDLMATCHINGLOW,l_CDLMATCHINGLOW,si_CDLMATCHINGLOW,st_CDLMATCHINGLOW,sb_CDLMATCHINGLOW,sf_CDLMATCHINGLOW,ss_CDLMATCHINGLOW,sl_CDLMATCHINGLOW},
{"CDLMATHOLD","CdlMatHold","Pattern Recognition",4,(int)-1,4,{0,1,2,3},1,{{"optInPenetration",1,0,3.0000000000000002e+37,0.5}},1,{{"outInteger",1}},b_CDLMATHOLD,f_CDLMATHOLD,l_CDLMATHOLD,si_CDLMATHOLD,st_CDLMATHOLD,sb_CDLMATHOLD,sf_CDLMATHOLD,ss_CDLMATHOLD,sl_CDLMATHOLD},
{"CDLMORNINGDOJISTAR","CdlMorningDojiStar","Pattern Recognition",4,(int)-1,4,{0,1,2,3},1,{{"optInPenetration",1,0,3.0000000000000002e+37,0.29999999999999999}},1,{{"outInteger",1}},b_CDLMORNINGDOJISTAR,f_CDLMORNINGDOJISTAR,l_CDLMORNINGDOJISTAR,si_CDLMORNINGDOJISTAR,st_CDLMORNINGDOJISTAR,sb_CDLMORNINGDOJISTAR,sf_CDLMORNINGDOJISTAR,ss_CDLMORNINGDOJISTAR,sl_CDLMORNINGDOJISTAR},
{"CDLMORNINGSTAR","CdlMorningStar","Pattern Recognition",4,(int)-1,4,{0,1,2,3},1,{{"optInPenetration",1,0,3.0000000000000002e+37,0.29999999999999999}},1,{{"outInteger",1}},b_CDLMORNINGSTAR,f_CDLMORNINGSTAR,l_CDLMORNINGSTAR,si_CDLMORNINGSTAR,st_CDLMORNINGSTAR,sb_CDLMORNINGSTAR,sf_CDLMORNINGSTAR,ss_CDLMORNINGSTAR,sl_CDLMORNINGSTAR},
{"CDLONNECK","CdlOnNeck","Pattern Recognition",4,(int)-1,4,{0,1,2,3},0,{{0}},1,{{"outInteger",1}},b_CDLONNECK,f_CDLONNECK,l_CDLONNECK,si_CDLONNECK,st_CDLONNECK,sb_CDLONNECK,sf_CDLONNECK,ss_CDLONNECK,sl_CDLONNECK},
{"CDLPIERCING","CdlPiercing","Pattern Recognition",4,(int)-1,4,{0,1,2,3},0,{{0}},1,{{"outInteger",1}},b_CDLPIERCING,f_CDLPIERCING,l_CDLPIERCING,si_CDLPIERCING,st_CDLPIERCING,sb_CDLPIERCING,sf_CDLPIERCING,ss_CDLPIERCING,sl_CDLPIERCING},
{"CDLRICKSHAWMAN","CdlRickshawMan","Pattern Recognition",4,(int)-1,4,{0,1,2,3},0,{{0}},1,{{"outInteger",1}},b_CDLRICKSHAWMAN,f_CDLRICKSHAWMAN,l_CDLRICKSHAWMAN,si_CDLRICKSHAWMAN,st_CDLRICKSHAWMAN,sb_CDLRICKSHAWMAN,sf_CDLRICKSHAWMAN,ss_CDLRICKSHAWMAN,sl_CDLRICKSHAWMAN},
{"CDLRISEFALL3METHODS","CdlRiseFall3Methods","Pattern Recognition",4,(int)-1,4,{0,1,2,3},0,{{0}},1,{{"outInteger",1}},b_CDLRISEFALL3METHODS,f_CDLRISEFALL3METHODS,l_CDLRISEFALL3METHODS,si_CDLRISEFALL3METHODS,st_CDLRISEFALL3METHODS,sb_CDLRISEFALL3METHODS,sf_CDLRISEFALL3METHODS,ss_CDLRISEFALL3METHODS,sl_CDLRISEFALL3METHODS},
{"CDLSEPARATINGLINES","CdlSeperatingLines","Pattern Recognition",4,(int)-1,4,{0,1,2,3},0,{{0}},1,{{"outInteger",1}},b_CDLSEPARATINGLINES,f_CDLSEPARATINGLINES,l_CDLSEPARATINGLINES,si_CDLSEPARATINGLINES,st_CDLSEPARATINGLINES,sb_CDLSEPARATINGLINES,sf_CDLSEPARATINGLINES,ss_CDLSEPARATINGLINES,sl_CDLSEPARATINGLINES},
{"CDLSHOOTINGSTAR","CdlShootingStar","Pattern Recognition",4,(int)-1,4,{0,1,2,3},0,{{0}},1,{{"outInteger",1}},b_CDLSHOOTINGSTAR,f_CDLSHOOTINGSTAR,l_CDLSHOOTINGSTAR,si_CDLSHOOTINGSTAR,st_CDLSHOOTINGSTAR,sb_CDLSHOOTINGSTAR,sf_CDLSHOOTINGSTAR,ss_CDLSHOOTINGSTAR,sl_CDLSHOOTINGSTAR},
{"CDLSHORTLINE","CdlShortLine","Pattern Recognition",4,(int)-1,4,{0,1,2,3},0,{{0}},1,{{"outInteger",1}},b_CDLSHORTLINE,f_CDLSHORTLINE,l_CDLSHORTLINE,si_CDLSHORTLINE,st_CDLSHORTLINE,sb_CDLSHORTLINE,sf_CDLSHORTLINE,ss_CDLSHORTLINE,sl_CDLSHORTLINE},
{"CDLSPINNINGTOP","CdlSpinningTop","Pattern Recognition",4,(int)-1,4,{0,1,2,3},0,{{0}},1,{{"outInteger",1}},b_CDLSPINNINGTOP,f_CDLSPINNINGTOP,l_CDLSPINNINGTOP,si_CDLSPINNINGTOP,st_CDLSPINNINGTOP,sb_CDLSPINNINGTOP,sf_CDLSPINNINGTOP,ss_CDLSPINNINGTOP,sl_CDLSPINNINGTOP},
{"CDLSTALLEDPATTERN","CdlStalledPattern","Pattern Recognition",4,(int)-1,4,{0,1,2,3},0,{{0}},1,{{"outInteger",1}},b_CDLSTALLEDPATTERN,f_CDLSTALLEDPATTERN,l_CDLSTALLEDPATTERN,si_CDLSTALLEDPATTERN,st_CDLSTALLEDPATTERN,sb_CDLSTALLEDPATTERN,sf_CDLSTALLEDPATTERN,ss_CDLSTALLEDPATTERN,sl_CDLSTALLEDPATTERN},
{"CDLSTICKSANDWICH","CdlStickSandwhich","Pattern Recognition",4,(int)-1,4,{0,1,2,3},0,{{0}},1,{{"outInteger",1}},b_CDLSTICKSANDWICH,f_CDLSTICKSANDWICH,l_CDLSTICKSANDWICH,si_CDLSTICKSANDWICH,st_CDLSTICKSANDWICH,sb_CDLSTICKSANDWICH,sf_CDLSTICKSANDWICH,ss_CDLSTICKSANDWICH,sl_CDLSTICKSANDWICH},
{"CDLTAKURI","CdlTakuri","Pattern Recognition",4,(int)-1,4,{0,1,2,3},0,{{0}},1,{{"outInteger",1}},b_CDLTAKURI,f_CDLTAKURI,l_CDLTAKURI,si_CDLTAKURI,st_CDLTAKURI,sb_CDLTAKURI,sf_CDLTAKURI,ss_CDLTAKURI,sl_CDLTAKURI},
{"CDLTASUKIGAP","CdlTasukiGap","Pattern Recognition",4,(int)-1,4,{0,1,2,3},0,{{0}},1,{{"outInteger",1}},b_CDLTASUKIGAP,f_CDLTASUKIGAP,l_CDLTASUKIGAP,si_CDLTASUKIGAP,st_CDLTASUKIGAP,sb_CDLTASUKIGAP,sf_CDLTASUKIGAP,ss_CDLTASUKIGAP,sl_CDLTASUKIGAP},
{"CDLTHRUSTING","CdlThrusting","Pattern Recognition",4,(int)-1,4,{0,1,2,3},0,{{0}},1,{{"outInteger",1}},b_CDLTHRUSTING,f_CDLTHRUSTING,l_CDLTHRUSTING,si_CDLTHRUSTING,st_CDLTHRUSTING,sb_CDLTHRUSTING,sf_CDLTHRUSTING,ss_CDLTHRUSTING,sl_CDLTHRUSTING},
{"CDLTRISTAR","CdlTristar","Pattern Recognition",4,(int)-1,4,{0,1,2,3},0,{{0}},1,{{"outInteger",1}},b_CDLTRISTAR,f_CDLTRISTAR,l_CDLTRISTAR,si_CDLTRISTAR,st_CDLTRISTAR,sb_CDLTRISTAR,sf_CDLTRISTAR,ss_CDLTRISTAR,sl_CDLTRISTAR},
{"CDLUNIQUE3RIVER","CdlUnique3River","Pattern Recognition",4,(int)-1,4,{0,1,2,3},0,{{0}},1,{{"outInteger",1}},b_CDLUNIQUE3RIVER,f_CDLUNIQUE3RIVER,l_CDLUNIQUE3RIVER,si_CDLUNIQUE3RIVER,st_CDLUNIQUE3RIVER,sb_CDLUNIQUE3RIVER,sf_CDLUNIQUE3RIVER,ss_CDLUNIQUE3RIVER,sl_CDLUNIQUE3RIVER},
{"CDLUPSIDEGAP2CROWS","CdlUpsideGap2Crows","Pattern Recognition",4,(int)-1,4,{0,1,2,3},0,{{0}},1,{{"outInteger",1}},b_CDLUPSIDEGAP2CROWS,f_CDLUPSIDEGAP2CROWS,l_CDLUPSIDEGAP2CROWS,si_CDLUPSIDEGAP2CROWS,st_CDLUPSIDEGAP2CROWS,sb_CDLUPSIDEGAP2CROWS,sf_CDLUPSIDEGAP2CROWS,ss_CDLUPSIDEGAP2CROWS,sl_CDLUPSIDEGAP2CROWS},
{"CDLXSIDEGAP3METHODS","CdlXSideGap3Methods","Pattern Recognition",4,(int)-1,4,{0,1,2,3},0,{{0}},1,{{"outInteger",1}},b_CDLXSIDEGAP3METHODS,f_CDLXSIDEGAP3METHODS,l_CDLXSIDEGAP3METHODS,si_CDLXSIDEGAP3METHODS,st_CDLXSIDEGAP3METHODS,sb_CDLXSIDEGAP3METHODS,sf_CDLXSIDEGAP3METHODS,ss_CDLXSIDEGAP3METHODS,sl_CDLXSIDEGAP3METHODS},
{"CEIL","Ceil","Math Transform",0,(int)-1,1,{6},0,{{0}},1,{{"outReal",0}},b_CEIL,f_CEIL,l_CEIL,si_CEIL,st_CEIL,sb_CEIL,sf_CEIL,ss_CEIL,sl_CEIL},
{"CMO","Cmo","Momentum Indicators",2,(int)TA_FUNC_UNST_CMO,1,{6},1,{{"optInTimePeriod",0,2,100000,14}},1,{{"outReal",0}},b_CMO,f_CMO,l_CMO,si_CMO,st_CMO,sb_CMO,sf_CMO,ss_CMO,sl_CMO},
{"CORREL","Correl","Statistic Functions",0,(int)-1,2,{6,6},1,{{"optInTimePeriod",0,1,100000,30}},1,{{"outReal",0}},b_CORREL,f_CORREL,l_CORREL,si_CORREL,st_CORREL,sb_CORREL,sf_CORREL,ss_CORREL,sl_CORREL},
{"COS","Cos","Math Transform",0,(int)-1,1,{6},0,{{0}},1,{{"outReal",0}},b_COS,f_COS,l_COS,si_COS,st_COS,sb_COS,sf_COS,ss_COS,sl_COS},
{"COSH","Cosh","Math Transform",0,(int)-1,1,{6},0,{{0}},1,{{"outReal",0}},b_COSH,f_COSH,l_COSH,si_COSH,st_COSH,sb_COSH,sf_COSH,ss_COSH,sl_COSH},
{"DEMA","Dema","Overlap Studies",1,(int)-1,1,{6},1,{{"optInTimePeriod",0,1,100000,30}},1,{{"outReal",0}},b_DEMA,f_DEMA,l_DEMA,si_DEMA,st_DEMA,sb_DEMA,sf_DEMA,ss_DEMA,sl_DEMA},
{"DIV","Div","Math Operators",0,(int)-1,2,{6,6},0,{{0}},1,{{"outReal",0}},b_DIV,f_DIV,l_DIV,si_DIV,st_DIV,sb_DIV,sf_DIV,ss_DIV,sl_DIV},
{"DX","Dx","Momentum Indicators",2,(int)TA_FUNC_UNST_DX,3,{1,2,3},1,{{"optInTimePeriod",0,2,100000,14}},1,{{"outReal",0}},b_DX,f_DX,l_DX,si_DX,st_DX,sb_DX,sf_DX,ss_DX,sl_DX},
{"EMA","Ema","Overlap Studies",3,(int)TA_FUNC_UNST_EMA,1,{6},1,{{"optInTimePeriod",0,1,100000,30}},1,{{"outReal",0}},b_EMA,f_EMA,l_EMA,si_EMA,st_EMA,sb_EMA,sf_EMA,ss_EMA,sl_EMA},
{"EXP","Exp","Math Transform",0,(int)-1,1,{6},0,{{0}},1,{{"outReal",0}},b_EXP,f_EXP,l_EXP,si_EXP,st_EXP,sb_EXP,sf_EXP,ss_EXP,sl_EXP},
{"FLOOR","Floor","Math Transform",0,(int)-1,1,{6},0,{{0}},1,{{"outReal",0}},b_FLOOR,f_FLOOR,l_FLOOR,si_FLOOR,st_FLOOR,sb_FLOOR,sf_FLOOR,ss_FLOOR,sl_FLOOR},
{"HT_DCPERIOD","HtDcPeriod","Cycle Indicators",2,(int)TA_FUNC_UNST_HT_DCPERIOD,1,{6},0,{{0}},1,{{"outReal",0}},b_HT_DCPERIOD,f_HT_DCPERIOD,l_HT_DCPERIOD,si_HT_DCPERIOD,st_HT_DCPERIOD,sb_HT_DCPERIOD,sf_HT_DCPERIOD,ss_HT_DCPERIOD,sl_HT_DCPERIOD},
{"HT_DCPHASE","HtDcPhase","Cycle Indicators",2,(int)TA_FUNC_UNST_HT_DCPHASE,1,{6},0,{{0}},1,{{"outReal",0}},b_HT_DCPHASE,f_HT_DCPHASE,l_HT_DCPHASE,si_HT_DCPHASE,st_HT_DCPHASE,sb_HT_DCPHASE,sf_HT_DCPHASE,ss_HT_DCPHASE,sl_HT_DCPHASE},
{"HT_PHASOR","HtPhasor","Cycle Indicators",2,(int)TA_FUNC_UNST_HT_PHASOR,1,{6},0,{{0}},2,{{"outInPhase",0},{"outQuadrature",0}},b_HT_PHASOR,f_HT_PHASOR,l_HT_PHASOR,si_HT_PHASOR,st_HT_PHASOR,sb_HT_PHASOR,sf_HT_PHASOR,ss_HT_PHASOR,sl_HT_PHASOR},
{"HT_SINE","HtSine","Cycle Indicators",2,(int)TA_FUNC_UNST_HT_SINE,1,{6},0,{{0}},2,{{"outSine",0},{"outLeadSine",0}},b_HT_SINE,f_HT_SINE,l_HT_SINE,si_HT_SINE,st_HT_SINE,sb_HT_SINE,sf_HT_SINE,ss_HT_SINE,sl_HT_SINE},
{"HT_TRENDLINE","HtTrendline","Overlap Studies",3,(int)TA_FUNC_UNST_HT_TRENDLINE,1,{6},0,{{0}},1,{{"outReal",0}},b_HT_TRENDLINE,f_HT_TRENDLINE,l_HT_TRENDLINE,si_HT_TRENDLINE,st_HT_TRENDLINE,sb_HT_TRENDLINE,sf_HT_TRENDLINE,ss_HT_TRENDLINE,sl_HT_TRENDLINE},
{"HT_TRENDMODE","HtTrendMode","Cycle Indicators",2,(int)TA_FUNC_UNST_HT_TRENDMODE,1,{6},0,{{0}},1,{{"outInteger",1}},b_HT_TRENDMODE,f_HT_TRENDMODE,l_HT_TRENDMODE,si_HT_TRENDMODE,st_HT_TRENDMODE,sb_HT_TRENDMODE,sf_HT_TRENDMODE,ss_HT_TRENDMODE,sl_HT_TRENDMODE},
{"IMI","Imi","Momentum Indicators",2,(int)TA_FUNC_UNST_IMI,2,{0,3},1,{{"optInTimePeriod",0,2,100000,14}},1,{{"outReal",0}},b_IMI,f_IMI,l_IMI,si_IMI,st_IMI,sb_IMI,sf_IMI,ss_IMI,sl_IMI},
{"KAMA","Kama","Overlap Studies",3,(int)TA_FUNC_UNST_KAMA,1,{6},1,{{"optInTimePeriod",0,1,100000,30}},1,{{"outReal",0}},b_KAMA,f_KAMA,l_KAMA,si_KAMA,st_KAMA,sb_KAMA,sf_KAMA,ss_KAMA,sl_KAMA},
{"LINEARREG","LinearReg","Statistic Functions",1,(int)-1,1,{6},1,{{"optInTimePeriod",0,2,100000,14}},1,{{"outReal",0}},b_LINEARREG,f_LINEARREG,l_LINEARREG,si_LINEARREG,st_LINEARREG,sb_LINEARREG,sf_LINEARREG,ss_LINEARREG,sl_LINEARREG},
{"LINEARREG_ANGLE","LinearRegAngle","Statistic Functions",0,(int)-1,1,{6},1,{{"optInTimePeriod",0,2,100000,14}},1,{{"outReal",0}},b_LINEARREG_ANGLE,f_LINEARREG_ANGLE,l_LINEARREG_ANGLE,si_LINEARREG_ANGLE,st_LINEARREG_ANGLE,sb_LINEARREG_ANGLE,sf_LINEARREG_ANGLE,ss_LINEARREG_ANGLE,sl_LINEARREG_ANGLE},
{"LINEARREG_INTERCEPT","LinearRegIntercept","Statistic Functions",1,(int)-1,1,{6},1,{{"optInTimePeriod",0,2,100000,14}},1,{{"outReal",0}},b_LINEARREG_INTERCEPT,f_LINEARREG_INTERCEPT,l_LINEARREG_INTERCEPT,si_LINEARREG_INTERCEPT,st_LINEARREG_INTERCEPT,sb_LINEARREG_INTERCEPT,sf_LINEARREG_INTERCEPT,ss_LINEARREG_INTERCEPT,sl_LINEARREG_INTERCEPT},
{"LINEARREG_SLOPE","LinearRegSlope","Statistic Functions",0,(int)-1,1,{6},1,{{"optInTimePeriod",0,2,100000,14}},1,{{"outReal",0}},b_LINEARREG_SLOPE,f_LINEARREG_SLOPE,l_LINEARREG_SLOPE,si_LINEARREG_SLOPE,st_LINEARREG_SLOPE,sb_LINEARREG_SLOPE,sf_LINEARREG_SLOPE,ss_LINEARREG_SLOPE,sl_LINEARREG_SLOPE},
{"LN","Ln","Math Transform",0,(int)-1,1,{6},0,{{0}},1,{{"outReal",0}},b_LN,f_LN,l_LN,si_LN,st_LN,sb_LN,sf_LN,ss_LN,sl_LN},
{"LOG10","Log10","Math Transform",0,(int)-1,1,{6},0,{{0}},1,{{"outReal",0}},b_LOG10,f_LOG10,l_LOG10,si_LOG10,st_LOG10,sb_LOG10,sf_LOG10,ss_LOG10,sl_LOG10},
{"MA","MovingAverage","Overlap Studies",1,(int)-1,1,{6},2,{{"optInTimePeriod",0,1,100000,30},{"optInMAType",2,0,9,0}},1,{{"outReal",0}},b_MA,f_MA,l_MA,si_MA,st_MA,sb_MA,sf_MA,ss_MA,sl_MA},
{"MACD","Macd","Momentum Indicators",0,(int)-1,1,{6},3,{{"optInFastPeriod",0,2,100000,12},{"optInSlowPeriod",0,2,100000,26},{"optInSignalPeriod",0,1,100000,9}},3,{{"outMACD",0},{"outMACDSignal",0},{"outMACDHist",0}},b_MACD,f_MACD,l_MACD,si_MACD,st_MACD,sb_MACD,sf_MACD,ss_MACD,sl_MACD},
{"MACDEXT","MacdExt","Momentum Indicators",0,(int)-1,1,{6},6,{{"optInFastPeriod",0,2,100000,12},{"optInFastMAType",2,0,9,0},{"optInSlowPeriod",0,2,100000,26},{"optInSlowMAType",2,0,9,0},{"optInSignalPeriod",0,1,100000,9},{"optInSignalMAType",2,0,9,0}},3,{{"outMACD",0},{"outMACDSignal",0},{"outMACDHist",0}},b_MACDEXT,f_MACDEXT,l_MACDEXT,si_MACDEXT,st_MACDEXT,sb_MACDEXT,sf_MACDEXT,ss_MACDEXT,sl_MACDEXT},
{"MACDFIX","MacdFix","Momentum Indicators",0,(int)-1,1,{6},1,{{"optInSignalPeriod",0,1,100000,9}},3,{{"outMACD",0},{"outMACDSignal",0},{"outMACDHist",0}},b_MACDFIX,f_MACDFIX,l_MACDFIX,si_MACDFIX,st_MACDFIX,sb_MACDFIX,sf_MACDFIX,ss_MACDFIX,sl_MACDFIX},
{"MAMA","Mama","Overlap Studies",3,(int)TA_FUNC_UNST_MAMA,1,{6},2,{{"optInFastLimit",1,0.01,0.98999999999999999,0.5},{"optInSlowLimit",1,0.01,0.98999999999999999,0.050000000000000003}},2,{{"outMAMA",0},{"outFAMA",0}},b_MAMA,f_MAMA,l_MAMA,si_MAMA,st_MAMA,sb_MAMA,sf_MAMA,ss_MAMA,sl_MAMA},
{"MAVP","MovingAverageVariablePeriod","Overlap Studies",1,(int)-1,2,{6,7},3,{{"optInMinPeriod",0,2,100000,2},{"optInMaxPeriod",0,2,100000,30},{"optInMAType",2,0,9,0}},1,{{"outReal",0}},b_MAVP,f_MAVP,l_MAVP,si_MAVP,st_MAVP,sb_MAVP,sf_MAVP,ss_MAVP,sl_MAVP},
{"MAX","Max","Math Operators",1,(int)-1,1,{6},1,{{"optInTimePeriod",0,2,100000,30}},1,{{"outReal",0}},b_MAX,f_MAX,l_MAX,si_MAX,st_MAX,sb_MAX,sf_MAX,ss_MAX,sl_MAX},
{"MAXINDEX","MaxIndex","Math Operators",0,(int)-1,1,{6},1,{{"optInTimePeriod",0,2,100000,30}},1,{{"outInteger",1}},b_MAXINDEX,f_MAXINDEX,l_MAXINDEX,si_MAXINDEX,st_MAXINDEX,sb_MAXINDEX,sf_MAXINDEX,ss_MAXINDEX,sl_MAXINDEX},
{"MEDPRICE","MedPrice","Price Transform",1,(int)-1,2,{1,2},0,{{0}},1,{{"outReal",0}},b_MEDPRICE,f_MEDPRICE,l_MEDPRICE,si_MEDPRICE,st_MEDPRICE,sb_MEDPRICE,sf_MEDPRICE,ss_MEDPRICE,sl_MEDPRICE},
{"MFI","Mfi","Momentum Indicators",2,(int)TA_FUNC_UNST_MFI,4,{1,2,3,4},1,{{"optInTimePeriod",0,2,100000,14}},1,{{"outReal",0}},b_MFI,f_MFI,l_MFI,si_MFI,st_MFI,sb_MFI,sf_MFI,ss_MFI,sl_MFI},
{"MIDPOINT","MidPoint","Overlap Studies",1,(int)-1,1,{6},1,{{"optInTimePeriod",0,2,100000,14}},1,{{"outReal",0}},b_MIDPOINT,f_MIDPOINT,l_MIDPOINT,si_MIDPOINT,st_MIDPOINT,sb_MIDPOINT,sf_MIDPOINT,ss_MIDPOINT,sl_MIDPOINT},
{"MIDPRICE","MidPrice","Overlap Studies",1,(int)-1,2,{1,2},1,{{"optInTimePeriod",0,2,100000,14}},1,{{"outReal",0}},b_MIDPRICE,f_MIDPRICE,l_MIDPRICE,si_MIDPRICE,st_MIDPRICE,sb_MIDPRICE,sf_MIDPRICE,ss_MIDPRICE,sl_MIDPRICE},
{"MIN","Min","Math Operators",1,(int)-1,1,{6},1,{{"optInTimePeriod",0,2,100000,30}},1,{{"outReal",0}},b_MIN,f_MIN,l_MIN,si_MIN,st_MIN,sb_MIN,sf_MIN,ss_MIN,sl_MIN},
{"MININDEX","MinIndex","Math Operators",0,(int)-1,1,{6},1,{{"optInTimePeriod",0,2,100000,30}},1,{{"outInteger",1}},b_MININDEX,f_MININDEX,l_MININDEX,si_MININDEX,st_MININDEX,sb_MININDEX,sf_MININDEX,ss_MININDEX,sl_MININDEX},
{"MINMAX","MinMax","Math Operators",1,(int)-1,1,{6},1,{{"optInTimePeriod",0,2,100000,30}},2,{{"outMin",0},{"outMax",0}},b_MINMAX,f_MINMAX,l_MINMAX,si_MINMAX,st_MINMAX,sb_MINMAX,sf_MINMAX,ss_MINMAX,sl_MINMAX},
{"MINMAXINDEX","MinMaxIndex","Math Operators",0,(int)-1,1,{6},1,{{"optInTimePeriod",0,2,100000,30}},2,{{"outMinIdx",1},{"outMaxIdx",1}},b_MINMAXINDEX,f_MINMAXINDEX,l_MINMAXINDEX,si_MINMAXINDEX,st_MINMAXINDEX,sb_MINMAXINDEX,sf_MINMAXINDEX,ss_MINMAXINDEX,sl_MINMAXINDEX},
{"MINUS_DI","MinusDI","Momentum Indicators",2,(int)TA_FUNC_UNST_MINUS_DI,3,{1,2,3},1,{{"optInTimePeriod",0,1,100000,14}},1,{{"outReal",0}},b_MINUS_DI,f_MINUS_DI,l_MINUS_DI,si_MINUS_DI,st_MINUS_DI,sb_MINUS_DI,sf_MINUS_DI,ss_MINUS_DI,sl_MINUS_DI},
{"MINUS_DM","MinusDM","Momentum Indicators",2,(int)TA_FUNC_UNST_MINUS_DM,2,{1,2},1,{{"optInTimePeriod",0,1,100000,14}},1,{{"outReal",0}},b_MINUS_DM,f_MINUS_DM,l_MINUS_DM,si_MINUS_DM,st_MINUS_DM,sb_MINUS_DM,sf_MINUS_DM,ss_MINUS_DM,sl_MINUS_DM},
{"MOM","Mom","Momentum Indicators",0,(int)-1,1,{6},1,{{"optInTimePeriod",0,1,100000,10}},1,{{"outReal",0}},b_MOM,f_MOM,l_MOM,si_MOM,st_MOM,sb_MOM,sf_MOM,ss_MOM,sl_MOM},
{"MULT","Mult","Math Operators",0,(int)-1,2,{6,6},0,{{0}},1,{{"outReal",0}},b_MULT,f_MULT,l_MULT,si_MULT,st_MULT,sb_MULT,sf_MULT,ss_MULT,sl_MULT},
{"NATR","Natr","Volatility Indicators",2,(int)TA_FUNC_UNST_NATR,3,{1,2,3},1,{{"optInTimePeriod",0,1,100000,14}},1,{{"outReal",0}},b_NATR,f_NATR,l_NATR,si_NATR,st_NATR,sb_NATR,sf_NATR,ss_NATR,sl_NATR},
{"NVI","Nvi","Volume Indicators",0,(int)-1,2,{3,4},0,{{0}},1,{{"outReal",0}},b_NVI,f_NVI,l_NVI,si_NVI,st_NVI,sb_NVI,sf_NVI,ss_NVI,sl_NVI},
{"OBV","Obv","Volume Indicators",0,(int)-1,2,{3,4},0,{{0}},1,{{"outReal",0}},b_OBV,f_OBV,l_OBV,si_OBV,st_OBV,sb_OBV,sf_OBV,ss_OBV,sl_OBV},
{"PLUS_DI","PlusDI","Momentum Indicators",2,(int)TA_FUNC_UNST_PLUS_DI,3,{1,2,3},1,{{"optInTimePeriod",0,1,100000,14}},1,{{"outReal",0}},b_PLUS_DI,f_PLUS_DI,l_PLUS_DI,si_PLUS_DI,st_PLUS_DI,sb_PLUS_DI,sf_PLUS_DI,ss_PLUS_DI,sl_PLUS_DI},
{"PLUS_DM","PlusDM","Momentum Indicators",2,(int)TA_FUNC_UNST_PLUS_DM,2,{1,2},1,{{"optInTimePeriod",0,1,100000,14}},1,{{"outReal",0}},b_PLUS_DM,f_PLUS_DM,l_PLUS_DM,si_PLUS_DM,st_PLUS_DM,sb_PLUS_DM,sf_PLUS_DM,ss_PLUS_DM,sl_PLUS_DM},
{"PPO","Ppo","Momentum Indicators",0,(int)-1,1,{6},3,{{"optInFastPeriod",0,2,100000,12},{"optInSlowPeriod",0,2,100000,26},{"optInMAType",2,0,9,0}},1,{{"outReal",0}},b_PPO,f_PPO,l_PPO,si_PPO,st_PPO,sb_PPO,sf_PPO,ss_PPO,sl_PPO},
{"PVI","Pvi","Volume Indicators",0,(int)-1,2,{3,4},0,{{0}},1,{{"outReal",0}},b_PVI,f_PVI,l_PVI,si_PVI,st_PVI,sb_PVI,sf_PVI,ss_PVI,sl_PVI},
{"PVT","Pvt","Volume Indicators",0,(int)-1,2,{3,4},0,{{0}},1,{{"outReal",0}},b_PVT,f_PVT,l_PVT,si_PVT,st_PVT,sb_PVT,sf_PVT,ss_PVT,sl_PVT},
{"ROC","Roc","Momentum Indicators",0,(int)-1,1,{6},1,{{"optInTimePeriod",0,1,100000,10}},1,{{"outReal",0}},b_ROC,f_ROC,l_ROC,si_ROC,st_ROC,sb_ROC,sf_ROC,ss_ROC,sl_ROC},
{"ROCP","RocP","Momentum Indicators",0,(int)-1,1,{6},1,{{"optInTimePeriod",0,1,100000,10}},1,{{"outReal",0}},b_ROCP,f_ROCP,l_ROCP,si_ROCP,st_ROCP,sb_ROCP,sf_ROCP,ss_ROCP,sl_ROCP},
{"ROCR","RocR","Momentum Indicators",0,(int)-1,1,{6},1,{{"optInTimePeriod",0,1,100000,10}},1,{{"outReal",0}},b_ROCR,f_ROCR,l_ROCR,si_ROCR,st_ROCR,sb_ROCR,sf_ROCR,ss_ROCR,sl_ROCR},
{"ROCR100","RocR100","Momentum Indicators",0,(int)-1,1,{6},1,{{"optInTimePeriod",0,1,100000,10}},1,{{"outReal",0}},b_ROCR100,f_ROCR100,l_ROCR100,si_ROCR100,st_ROCR100,sb_ROCR100,sf_ROCR100,ss_ROCR100,sl_ROCR100},
{"RSI","Rsi","Momentum Indicators",2,(int)TA_FUNC_UNST_RSI,1,{6},1,{{"optInTimePeriod",0,2,100000,14}},1,{{"outReal",0}},b_RSI,f_RSI,l_RSI,si_RSI,st_RSI,sb_RSI,sf_RSI,ss_RSI,sl_RSI},
{"SAR","Sar","Overlap Studies",1,(int)-1,2,{1,2},2,{{"optInAcceleration",1,0,3.0000000000000002e+37,0.02},{"optInMaximum",1,0,3.0000000000000002e+37,0.20000000000000001}},1,{{"outReal",0}},b_SAR,f_SAR,l_SAR,si_SAR,st_SAR,sb_SAR,sf_SAR,ss_SAR,sl_SAR},
{"SAREXT","SarExt","Overlap Studies",1,(int)-1,2,{1,2},8,{{"optInStartValue",1,-3.0000000000000002e+37,3.0000000000000002e+37,0},{"optInOffsetOnReverse",1,0,3.0000000000000002e+37,0},{"optInAccelerationInitLong",1,0,3.0000000000000002e+37,0.02},{"optInAccelerationLong",1,0,3.0000000000000002e+37,0.02},{"optInAccelerationMaxLong",1,0,3.0000000000000002e+37,0.20000000000000001},{"optInAccelerationInitShort",1,0,3.0000000000000002e+37,0.02},{"optInAccelerationShort",1,0,3.0000000000000002e+37,0.02},{"optInAccelerationMaxShort",1,0,3.0000000000000002e+37,0.20000000000000001}},1,{{"outReal",0}},b_SAREXT,f_SAREXT,l_SAREXT,si_SAREXT,st_SAREXT,sb_SAREXT,sf_SAREXT,ss_SAREXT,sl_SAREXT},
{"SIN","Sin","Math Transform",0,(int)-1,1,{6},0,{{0}},1,{{"outReal",0}},b_SIN,f_SIN,l_SIN,si_SIN,st_SIN,sb_SIN,sf_SIN,ss_SIN,sl_SIN},
{"SINH","Sinh","Math Transform",0,(int)-1,1,{6},0,{{0}},1,{{"outReal",0}},b_SINH,f_SINH,l_SINH,si_SINH,st_SINH,sb_SINH,sf_SINH,ss_SINH,sl_SINH},
{"SMA","Sma","Overlap Studies",1,(int)-1,1,{6},1,{{"optInTimePeriod",0,1,100000,30}},1,{{"outReal",0}},b_SMA,f_SMA,l_SMA,si_SMA,st_SMA,sb_SMA,sf_SMA,ss_SMA,sl_SMA},
{"SQRT","Sqrt","Math Transform",0,(int)-1,1,{6},0,{{0}},1,{{"outReal",0}},b_SQRT,f_SQRT,l_SQRT,si_SQRT,st_SQRT,sb_SQRT,sf_SQRT,ss_SQRT,sl_SQRT},
{"STDDEV","StdDev","Statistic Functions",0,(int)-1,1,{6},2,{{"optInTimePeriod",0,2,100000,5},{"optInNbDev",1,-3.0000000000000002e+37,3.0000000000000002e+37,1}},1,{{"outReal",0}},b_STDDEV,f_STDDEV,l_STDDEV,si_STDDEV,st_STDDEV,sb_STDDEV,sf_STDDEV,ss_STDDEV,sl_STDDEV},
{"STOCH","Stoch","Momentum Indicators",0,(int)-1,3,{1,2,3},5,{{"optInFastK_Period",0,1,100000,5},{"optInSlowK_Period",0,1,100000,3},{"optInSlowK_MAType",2,0,9,0},{"optInSlowD_Period",0,1,100000,3},{"optInSlowD_MAType",2,0,9,0}},2,{{"outSlowK",0},{"outSlowD",0}},b_STOCH,f_STOCH,l_STOCH,si_STOCH,st_STOCH,sb_STOCH,sf_STOCH,ss_STOCH,sl_STOCH},
{"STOCHF","StochF","Momentum Indicators",0,(int)-1,3,{1,2,3},3,{{"optInFastK_Period",0,1,100000,5},{"optInFastD_Period",0,1,100000,3},{"optInFastD_MAType",2,0,9,0}},2,{{"outFastK",0},{"outFastD",0}},b_STOCHF,f_STOCHF,l_STOCHF,si_STOCHF,st_STOCHF,sb_STOCHF,sf_STOCHF,ss_STOCHF,sl_STOCHF},
{"STOCHRSI","StochRsi","Momentum Indicators",2,(int)TA_FUNC_UNST_STOCHRSI,1,{6},4,{{"optInTimePeriod",0,2,100000,14},{"optInFastK_Period",0,1,100000,5},{"optInFastD_Period",0,1,100000,3},{"optInFastD_MAType",2,0,9,0}},2,{{"outFastK",0},{"outFastD",0}},b_STOCHRSI,f_STOCHRSI,l_STOCHRSI,si_STOCHRSI,st_STOCHRSI,sb_STOCHRSI,sf_STOCHRSI,ss_STOCHRSI,sl_STOCHRSI},
{"SUB","Sub","Math Operators",0,(int)-1,2,{6,6},0,{{0}},1,{{"outReal",0}},b_SUB,f_SUB,l_SUB,si_SUB,st_SUB,sb_SUB,sf_SUB,ss_SUB,sl_SUB},
{"SUM","Sum","Math Operators",0,(int)-1,1,{6},1,{{"optInTimePeriod",0,2,100000,30}},1,{{"outReal",0}},b_SUM,f_SUM,l_SUM,si_SUM,st_SUM,sb_SUM,sf_SUM,ss_SUM,sl_SUM},
{"T3","T3","Overlap Studies",3,(int)TA_FUNC_UNST_T3,1,{6},2,{{"optInTimePeriod",0,1,100000,5},{"optInVFactor",1,0,1,0.69999999999999996}},1,{{"outReal",0}},b_T3,f_T3,l_T3,si_T3,st_T3,sb_T3,sf_T3,ss_T3,sl_T3},
{"TAN","Tan","Math Transform",0,(int)-1,1,{6},0,{{0}},1,{{"outReal",0}},b_TAN,f_TAN,l_TAN,si_TAN,st_TAN,sb_TAN,sf_TAN,ss_TAN,sl_TAN},
{"TANH","Tanh","Math Transform",0,(int)-1,1,{6},0,{{0}},1,{{"outReal",0}},b_TANH,f_TANH,l_TANH,si_TANH,st_TANH,sb_TANH,sf_TANH,ss_TANH,sl_TANH},
{"TEMA","Tema","Overlap Studies",1,(int)-1,1,{6},1,{{"optInTimePeriod",0,1,100000,30}},1,{{"outReal",0}},b_TEMA,f_TEMA,l_TEMA,si_TEMA,st_TEMA,sb_TEMA,sf_TEMA,ss_TEMA,sl_TEMA},
{"TRANGE","TrueRange","Volatility Indicators",0,(int)-1,3,{1,2,3},0,{{0}},1,{{"outReal",0}},b_TRANGE,f_TRANGE,l_TRANGE,si_TRANGE,st_TRANGE,sb_TRANGE,sf_TRANGE,ss_TRANGE,sl_TRANGE},
{"TRIMA","Trima","Overlap Studies",1,(int)-1,1,{6},1,{{"optInTimePeriod",0,1,100000,30}},1,{{"outReal",0}},b_TRIMA,f_TRIMA,l_TRIMA,si_TRIMA,st_TRIMA,sb_TRIMA,sf_TRIMA,ss_TRIMA,sl_TRIMA},
{"TRIX","Trix","Momentum Indicators",0,(int)-1,1,{6},1,{{"optInTimePeriod",0,1,100000,30}},1,{{"outReal",0}},b_TRIX,f_TRIX,l_TRIX,si_TRIX,st_TRIX,sb_TRIX,sf_TRIX,ss_TRIX,sl_TRIX},
{"TSF","Tsf","Statistic Functions",1,(int)-1,1,{6},1,{{"optInTimePeriod",0,2,100000,14}},1,{{"outReal",0}},b_TSF,f_TSF,l_TSF,si_TSF,st_TSF,sb_TSF,sf_TSF,ss_TSF,sl_TSF},
{"TYPPRICE","TypPrice","Price Transform",1,(int)-1,3,{1,2,3},0,{{0}},1,{{"outReal",0}},b_TYPPRICE,f_TYPPRICE,l_TYPPRICE,si_TYPPRICE,st_TYPPRICE,sb_TYPPRICE,sf_TYPPRICE,ss_TYPPRICE,sl_TYPPRICE},
{"ULTOSC","UltOsc","Momentum Indicators",0,(int)-1,3,{1,2,3},3,{{"optInTimePeriod1",0,1,100000,7},{"optInTimePeriod2",0,1,100000,14},{"optInTimePeriod3",0,1,100000,28}},1,{{"outReal",0}},b_ULTOSC,f_ULTOSC,l_ULTOSC,si_ULTOSC,st_ULTOSC,sb_ULTOSC,sf_ULTOSC,ss_ULTOSC,sl_ULTOSC},
{"VAR","Variance","Statistic Functions",0,(int)-1,1,{6},2,{{"optInTimePeriod",0,1,100000,5},{"optInNbDev",1,-3.0000000000000002e+37,3.0000000000000002e+37,1}},1,{{"outReal",0}},b_VAR,f_VAR,l_VAR,si_VAR,st_VAR,sb_VAR,sf_VAR,ss_VAR,sl_VAR},
{"WCLPRICE","WclPrice","Price Transform",1,(int)-1,3,{1,2,3},0,{{0}},1,{{"outReal",0}},b_WCLPRICE,f_WCLPRICE,l_WCLPRICE,si_WCLPRICE,st_WCLPRICE,sb_WCLPRICE,sf_WCLPRICE,ss_WCLPRICE,sl_WCLPRICE},
{"WILLR","WillR","Momentum Indicators",0,(int)-1,3,{1,2,3},1,{{"optInTimePeriod",0,2,100000,14}},1,{{"outReal",0}},b_WILLR,f_WILLR,l_WILLR,si_WILLR,st_WILLR,sb_WILLR,sf_WILLR,ss_WILLR,sl_WILLR},
{"WLMA","Wlma","Overlap Studies",3,(int)TA_FUNC_UNST_WLMA,1,{6},1,{{"optInTimePeriod",0,1,100000,30}},1,{{"outReal",0}},b_WLMA,f_WLMA,l_WLMA,si_WLMA,st_WLMA,sb_WLMA,sf_WLMA,ss_WLMA,sl_WLMA},
{"WMA","Wma","Overlap Studies",1,(int)-1,1,{6},1,{{"optInTimePeriod",0,1,100000,30}},1,{{"outReal",0}},b_WMA,f_WMA,l_WMA,si_WMA,st_WMA,sb_WMA,sf_WMA,ss_WMA,sl_WMA}
};
const int NF=sizeof FTAB/sizeof*FTAB;
