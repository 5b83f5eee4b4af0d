#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as one readable source).
import json,os
F='ta-lib-rt/c/src/ta_func/'; C='ta-lib-rt/c/src/ta_common/'; A='ta-lib-rt/c/src/ta_abstract/'; I='ta-lib-rt/c/include/'
ALL=F+'ta_*.c (all 165 function files)'
P=[]
def p(id,title,st,over,text,why,files,mech,obs,state=None,hook=None):
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=obs))
    if state: d['anchors']['state']=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    d['anchors']['hook_needed']=hook
    P.append(d)
p('C01','Bar-by-bar streaming gives exactly what the batch call gives',
 'Feeding a market history one bar at a time to a streaming indicator object yields, at every bar, the same value the batch function computes for that bar over the whole history. While the batch function has no output yet the streaming call answers "need more data", and from the first bar with an output on it answers success. This holds for every indicator, every valid parameter set and every setting of the global unstable periods, compatibility mode and candle settings.',
 ['inputs','histories','configurations'],'every function x every valid parameter/settings combination x every input history',
 'The regression tests stream one fixed 252-bar history with a handful of parameter sets and default settings; ring sizes, ties, warm-up edges and non-default settings are never reached.',
 [ALL,I+'ta_func.h',I+'ta_defs.h'],[('per-function State step with a ring of the last lookback bars','TA_<F>_State in '+F),('NEED_MORE_DATA / GET_LOCAL_IDX / PUSH_TO_MEM ring macros',I+'ta_defs.h'),('nested states for composed indicators',F+'ta_MA.c, ta_MACDEXT.c, ta_BBANDS.c, ta_STOCH.c, ...')],['TA_<F>_State return code and outputs','TA_<F> outputs, outBegIdx, outNBElement'],
 [('mem_index','number of bars consumed','struct TA_<F>_State'),('memory','ring of the last mem_size bars','struct TA_<F>_State')])
p('C02','Batch-feeding a streaming object equals feeding it bar by bar',
 'Feeding bars start..end to a streaming object in one batch-feed call, in any split of the history into consecutive calls and single steps, leaves the object in the same state and yields the same outputs as feeding those bars singly. It reports the index of the first bar fed and the number of bars fed, writes exactly that many leading output elements, and marks the bars that have no output yet as NaN in real-valued outputs.',
 ['inputs','histories'],'every function, every way of cutting a history into single steps and batch-feeds',
 'Tests call the batch-feed once over the full history; continuing an object, empty results and mixed chunks are not exercised.',
 [ALL],[('BatchState loop over State',F+'ta_<F>.c section 10')],['TA_<F>_BatchState outputs, outBegIdx, outNBElement, return code','subsequent TA_<F>_State outputs'])
p('C03','A saved and reloaded streaming object continues identically',
 'Saving a streaming object after any number of bars and loading it back gives an object whose every later output equals the original\'s; saving does not disturb the original. Saved records are self-delimiting: several objects written one after another to one file load back in order.',
 ['histories','crash_points'],'every function, parameter set, and save point of a history (including before the first bar), also save of a reloaded object',
 'Tests save and load at one fixed place per function; save points inside warm-up, at ring wrap-around and with nested or empty sub-objects are not covered.',
 [ALL,C+'ta_memory.h',I+'ta_defs.h'],[('StateSave/StateLoad field lists',F+'ta_<F>.c sections 12-14'),('circular buffer save/load macros',C+'ta_memory.h')],['outputs after TA_<F>_StateLoad','file position after load'])
p('C04','I/O failures while saving or loading state are always reported',
 'If any write of a save, or any read of a load, fails or comes up short - including a record truncated at any byte - the call returns an error instead of success, does not crash, and leaks nothing that the normal free call cannot release.',
 ['fault_sequences','crash_points'],'every function, every byte at which a record is cut, every I/O operation that fails',
 'Tests only use healthy files; a failure at the k-th write or a record truncated at an arbitrary byte never happens.',
 [ALL,C+'ta_memory.h'],[('return-code checks after each fwrite/fread',F+'ta_<F>.c sections 12-14'),('CIRCBUF_STRUCT_SAVE / _LOAD macros',C+'ta_memory.h')],['return code of TA_<F>_StateSave / _StateLoad','state pointer afterwards'])
p('C05','Running out of memory is reported cleanly at every allocation',
 'When any single memory allocation made by a library call fails, the call returns the allocation-error code, does not crash, and releases everything it had allocated (streaming objects after the normal free call). Without failures, a batch call releases all it allocates.',
 ['fault_sequences'],'every function and API, every parameter set that changes the allocation pattern, every allocation index',
 'No test makes an allocation fail.',
 [ALL,C+'ta_memory.h',A+'ta_abstract.c'],[('NULL checks after TA_Malloc/TA_Calloc','ARRAY_ALLOC, CIRCBUF_INIT in '+C+'ta_memory.h and their call sites')],['return codes','balance of allocations and frees'])
p('C06','Every batch call reports and fills exactly the right output window',
 'For any valid range start..end a batch call succeeds, its first-output index is the later of start and the lookback announced for those parameters, and its output count is end minus that index plus one - or both are zero when nothing can be computed. Exactly that many leading elements of each output array are written and nothing beyond them.',
 ['inputs','configurations'],'every function, parameter/settings combination and every start/end pair of short histories around the lookback',
 'Tests check a few ranges for a few functions; the corner ranges around the lookback with non-default unstable periods or candle settings are unexplored.',
 [ALL],[('lookbackTotal / startIdx adjustment',F+'ta_<F>.c main body'),('TA_<F>_Lookback',F+'ta_<F>.c section 2')],['outBegIdx, outNBElement, output arrays incl. canaries'])
p('C07','The requested range only selects outputs; it never changes them',
 'For functions whose definition needs a finite window (not the cumulative and recursive ones, which start with the request), the value at a bar is the same whatever range it was requested in. For every function a value never depends on bars after the requested range, nor on bars earlier than the range start less the announced lookback (in Metastock compatibility the averages seeded from the first bar may read from bar 0), nor on where in the array the window lies. Bars outside the used window may contain anything, including NaN.',
 ['inputs','configurations'],'every function, every sub-range of short histories, every out-of-window content',
 'Regression tests check range independence on one history and with tolerance; poison values outside the window are never tried.',
 [ALL],[('trailing-window arithmetic and start-up accumulation from startIdx - lookback',F+'ta_<F>.c main body')],['outputs of TA_<F> over sub-ranges'])
p('C08','Library calls stay inside the caller\'s arrays and never modify inputs',
 'No call reads an input element outside 0..end, writes an output element outside its reported window, modifies its inputs, or executes undefined behaviour (out-of-bounds, use after free, overflow, invalid shift or cast), for any valid range, parameters, settings and price data.',
 ['inputs','configurations'],'every function x valid parameters x ranges x histories, in batch and streaming form',
 'Tests run uninstrumented on generous buffers; overruns by one element or stale reads pass silently.',
 [ALL,C+'ta_memory.h'],[('index bounds derived from startIdx/endIdx/lookback',F+'ta_<F>.c'),('CIRCBUF and ARRAY macros',C+'ta_memory.h')],['AddressSanitizer/UBSan reports','input arrays after the call'])
p('C09','Output arrays may overlay input arrays',
 'Passing an input array as an output array gives the same return code, window and output values as separate arrays, for any single output placed on any input of the same element type and for several outputs placed on different inputs.',
 ['inputs','configurations'],'every function with real outputs, every output-to-input assignment, every range',
 'Regression tests overlay one output on one input over the default range only.',
 [ALL],[('read-before-write ordering and temporary buffers chosen by pointer comparison','e.g. bufferIsAllocated logic in ta_STOCH.c, ta_BBANDS.c, ta_TRIMA.c')],['outputs of TA_<F> with aliased arrays'])
p('C10','Single-precision input gives the double-precision result',
 'For inputs exactly representable in single precision, the single-precision entry point of every function returns the same status, window and values as the double-precision one (up to rounding; the arithmetic operators and the few functions that form a quotient of raw inputs may round it to single precision).',
 ['inputs','configurations'],'every function x parameters/settings x ranges x float-representable histories',
 'Tests compare the two on one history; the two bodies are separate generated copies that can drift apart.',
 [ALL],[('section 15: generated float copy of each function',F+'ta_<F>.c')],['TA_S_<F> vs TA_<F> outputs'])
p('C11','Parameters are validated identically by every entry point',
 'A parameter set is accepted exactly when each parameter lies in its documented range or is the "use default" marker; the batch calls then succeed, the lookback call returns a non-negative count and the streaming constructor succeeds, while otherwise they return the bad-parameter code, -1 and the bad-parameter code respectively and touch no output. The default marker behaves exactly like the documented default value. Null pointers and invalid ranges yield their documented error codes.',
 ['inputs','configurations'],'every function, every combination over the boundary lattice (min-1, min, max, max+1, default, extremes) of its parameters, every null pointer position, invalid ranges',
 'Tests try a few bad values for a few functions.',
 [ALL,A+'tables/*.c',A+'ta_def_ui.c'],[('generated range checks',F+'ta_<F>.c sections 2, 4, 6')],['return codes of TA_<F>, TA_S_<F>, TA_<F>_Lookback, TA_<F>_StateInit'])
p('C12','Indicator values equal their mathematical definitions',
 'Every non-candlestick indicator returns, for every history and valid parameter set, the value of its published definition computed directly from the window it needs (up to floating-point rounding), including the documented conventions for seeds, zero denominators and ties.',
 ['inputs','configurations'],'every function x parameters/settings x every history explored, at every bar',
 'Regression tests compare a few bars of one history with spreadsheet values; running sums, ring buffers, trailing extremes and special cases are not re-derived.',
 [ALL],[('optimized running-window algorithms',F+'ta_<F>.c main body')],['outputs of TA_<F>'])
p('C13','Candlestick patterns are reported exactly where their definition holds',
 'Each candlestick function reports +100/-100 (or +-200 or +-80 where documented) exactly on the bars where the pattern\'s published conditions hold under the current candle settings, and 0 elsewhere; averages use exactly the configured number of preceding candles, range type and factor.',
 ['inputs','configurations'],'61 patterns x candle settings x every candle sequence explored',
 'Tests use one history on which many patterns never or rarely occur, with default settings.',
 [F+'ta_CDL*.c',F+'ta_utility.h',C+'ta_global.c'],[('pattern conditions and running candle averages',F+'ta_CDL*.c'),('TA_CANDLERANGE / TA_CANDLEAVERAGE macros',F+'ta_utility.h')],['outInteger of TA_CDL*'])
p('C14','Related indicators agree with one another',
 'Indicators defined in terms of others agree with them on every history: e.g. the generic moving average equals the named one, MACD variants agree with each other and with moving-average differences, Bollinger bands with moving average and deviation, stochastic variants with one another, min/max families with each other, directional-movement family, rate-of-change family, momentum and price transforms.',
 ['inputs','configurations'],'all identities x parameters/settings x histories',
 'Tests hard-code expected values per function; the relations between functions are never checked.',
 [ALL],[('delegation between functions (MA, MACDEXT, STOCHRSI...) and duplicated algorithms (DX/DI/DM, MIN/MAX/MINMAX)',F)],['outputs of the related functions'])
p('C15','Calling a function through the abstract interface equals calling it directly',
 'For every function listed by the abstract interface, setting inputs, parameters and outputs by index and calling it returns the same status, window, lookback and values as the direct call with those arguments, for any parameter values including defaults and invalid ones; the streaming calls of the abstract interface likewise.',
 ['inputs','configurations'],'every function x parameter values x component/flag combinations x ranges, batch and streaming',
 'The abstract test only checks that default-parameter calls run; argument wiring per function (161+ generated frames) is not compared.',
 [A+'ta_abstract.c',A+'frames/ta_frame.c',A+'tables/*.c'],[('generated call frames',A+'frames/ta_frame.c'),('TA_CallFunc, TA_GetLookback, TA_Set*Param*',A+'ta_abstract.c')],['TA_CallFunc / TA_GetLookback / TA_CallFuncState* results'])
p('C16','Parameter holders follow their protocol in any order of calls',
 'A parameter holder accepts setting any input, option or output in any order and any number of times, the last value winning; wrong index, wrong type, null pointer or wrong handle are refused with their documented code and change nothing; a call with something still missing is refused, and everything allocated is released when the holder is freed.',
 ['histories'],'every operation sequence up to the depth explored over an alphabet of good and bad calls, for functions of each input/output/option shape',
 'The tests perform the one canonical order of operations.',
 [A+'ta_abstract.c'],[('inBitmap/outBitmap bookkeeping',A+'ta_abstract.c'),('magic numbers on handles',C+'ta_magic_nb.h')],['return codes','subsequent TA_CallFunc result'],
 [('inBitmap, outBitmap','which inputs/outputs are still missing','TA_ParamHolderPriv')])
p('C17','Introspection data is complete and describes the real functions',
 'Groups, function lists, handles and descriptions are mutually consistent: each function appears in exactly its own group, lookup by name finds it and only it, its declared inputs, options, ranges, defaults and outputs are those of the real function, its flags are truthful, and every status code has its description.',
 ['programs','inputs'],'all groups, functions, parameters and status codes, and lookups of near-miss names',
 'Tests walk the tables without comparing them with function behaviour.',
 [A+'ta_abstract.c',A+'ta_def_ui.c',A+'tables/*.c',A+'ta_group_idx.c',C+'ta_retcode.c'],[('per-letter definition tables and group index',A),('bsearch-like name lookup',A+'ta_abstract.c')],['TA_GroupTable, TA_FuncTable, TA_GetFuncHandle, TA_GetFuncInfo, TA_Get*ParameterInfo, TA_ForEachFunc, TA_SetRetCodeInfo'])
p('C18','Global settings behave as simple independent registers',
 'After any sequence of initialize, shutdown, set, reset and query operations, each unstable period, the compatibility mode and each candle setting hold the last value assigned (or the documented default), setting "all" sets every one, out-of-range identifiers are refused and change nothing.',
 ['histories'],'every sequence of settings operations up to the explored depth',
 'Tests set and reset values around single calls only.',
 [C+'ta_global.c',F+'ta_utility.c',I+'ta_common.h'],[('TA_Set/GetUnstablePeriod, TA_Set/GetCompatibility',F+'ta_utility.c'),('TA_SetCandleSettings, TA_RestoreCandleDefaultSettings',C+'ta_global.c')],['getters','behaviour of dependent functions'],
 [('TA_Globals','all settings',C+'ta_global.c')])
p('C19','A setting affects only the functions documented to depend on it',
 'Changing one function\'s unstable period, the compatibility mode or a candle setting leaves results of all functions not documented to depend on it bit-identical (ADXR shares the setting of ADX, STOCHRSI that of RSI, composed functions those of their averages). For a function with an unstable period of its own (one-period directional movement has none), a period of k lengthens the lookback by exactly k and drops the first k outputs without altering how later ones are computed.',
 ['configurations','inputs'],'every function x every individual setting x several values x histories',
 'Tests vary only the setting belonging to the function under test.',
 [ALL,F+'ta_utility.h'],[('TA_GLOBALS_UNSTABLE_PERIOD(id) look-ups',F),('TA_GLOBALS_COMPATIBILITY tests',F)],['TA_<F> outputs and TA_<F>_Lookback under each setting'])
p('C20','Calls and streaming objects do not influence one another',
 'Results depend only on arguments and global settings: repeated calls give bit-identical results, any interleaving of streaming objects and batch calls gives each the results it has alone, and apart from the settings the library writes to none of its static data, so concurrent calls on separate objects are safe.',
 ['schedules','histories'],'every interleaving of the steps of two streaming objects (same or different function) with batch calls in between; every library call for static-data writes',
 'Tests run one object at a time on one thread.',
 [ALL,C+'ta_global.c'],[('all working data on the stack, heap or in the object',F),('const tables',A+'tables/*.c')],['outputs per object','bytes of the library\'s writable data segment before/after'])
p('C21','Streaming objects survive any order of lifecycle operations',
 'Any sequence of create, step, batch-feed, save, load and free operations, with null or empty objects included, returns a documented code without crashing; freeing an object releases all its memory and clears the caller\'s handle, and freeing twice is harmless.',
 ['histories'],'every operation sequence up to the explored depth for every function',
 'Tests perform create, step, save, load, free once in that order.',
 [ALL],[('NULL checks at the head of each state call',F+'ta_<F>.c sections 6-14')],['return codes','allocation balance'])
p('C22','Bounded indicators stay in their range and outputs stay finite',
 'Up to rounding, for every finite, well-formed price history, oscillators and other bounded indicators stay within their documented range, index outputs point inside the window, bands keep their order, and no output is NaN or infinite unless the mathematical function itself is undefined there.',
 ['inputs','configurations'],'every function x parameters/settings x histories including flat, zero-volume, zero-range and extreme-jump bars',
 'Tests use one well-behaved history where denominators never vanish.',
 [ALL],[('TA_IS_ZERO guards and division special cases',F)],['outputs of TA_<F>'])
p('C23','The shipped API description matches the library',
 'The XML and text descriptions of the API, which binding generators read, are well formed and list every function exactly once with its group, hint, flags, all eight entry points and their inputs, options (names, types, ranges, defaults) and outputs exactly as introspection reports and the functions behave.',
 ['inputs'],'the complete description, element by element',
 'No test reads the XML; it only has to parse for the build.',
 ['ta-lib-rt/ta_func_api.xml','ta-lib-rt/ta_func_list.txt',A+'tables/*.c'],[('TA_DEF_FUNCTION entries and parameter tables',A+'tables/*.c'),('the description','ta-lib-rt/ta_func_api.xml')],['elements of the XML text','TA_Get*Info results','return codes at the described bounds'])
p('C24','Streaming runs in constant memory',
 'A streaming object owns, from creation to release, a fixed amount of memory and saves records of a fixed size, however many bars it is fed one by one or in batches; objects loaded from a record hold the same; steps, batch-feeds, saves and batch calls keep no memory of their own and releasing the object returns everything.',
 ['histories','configurations'],'every function x parameters/settings x histories up to 65536+ bars, with the allocation balance observed after every operation',
 'Tests never look at memory and feed a few hundred bars.',
 [ALL],[('allocations in TA_<F>_StateInit, nested state objects',F+'ta_<F>.c')],['blocks and bytes allocated','record lengths'])
p('C25','Results do not depend on the unit or level of the prices',
 'Multiplying all prices (or all volumes) by a constant multiplies each result by the power of it that belongs to its dimension: averages and ranges scale, oscillators, ratios and candlestick patterns stay the same, for every magnitude from tiny to huge quotes. Adding a constant to all prices moves averages and bands by it and leaves differences, oscillators of differences and patterns alone. Functions of angles, exponentials, logarithms and whole numbers aside, and above the zero threshold of 1e-14 and MFI\'s least money flow.',
 ['inputs','configurations'],'every function with a unit x parameters/settings x histories x changes of unit from 2^-26 to 2^30 and of level, above the documented zero threshold',
 'Tests use one series quoted around 100; absolute thresholds and overflowing intermediates show only at other magnitudes.',
 [ALL,F+'ta_utility.h'],[('TA_EPSILON, TA_IS_ZERO, TA_IS_ZERO_OR_NEG',F+'ta_utility.h'),('zero tests and special cases',F)],['outputs of TA_<F>, TA_S_<F> and TA_<F>_State'])
p('C26','Rises and falls are treated alike',
 'On the mirror image of a market (every price negated, highs and lows exchanged) each function gives the mirrored result: averages and differences change sign, ranges and strengths stay, percentages become their complement, upper and lower bands, up and down indicators (PLUS/MINUS_DI, AROON, MAX/MIN) and bullish and bearish patterns exchange roles. One-sided indicators and patterns without a counterpart aside.',
 ['inputs','configurations'],'every function with a mirror counterpart x parameters/settings x histories',
 'Tests use one market; the falling branch of an indicator is rarely compared with the rising one.',
 [ALL],[('branches on the direction of movement',F)],['outputs of TA_<F>, TA_S_<F> and TA_<F>_State'])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w') as f:
    for d in P: assert len(d['title'])<=80,d['title']; f.write(json.dumps(d)+'\n')
