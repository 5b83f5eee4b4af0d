#!/usr/bin/env python3
# Writes /verif/MANIFEST.json from the checks registered below.
import json,os
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T="explicit-state model checking of the real code: exhaustive enumeration of %s"
C={
"C01":("model_checking",T%"bar histories (product trees and all single-bar deviations) x parameters x settings, batch run as the reference model of the streaming machine"),
"C02":("model_checking",T%"every cut of a history into batch-feed calls and single steps"),
"C03":("fault_enumeration","exhaustive crash-point enumeration: save/kill/reload at every bar, compared with the undisturbed run"),
"C04":("fault_enumeration","exhaustive fault injection: every failing stream operation and every truncation byte"),
"C05":("fault_enumeration","exhaustive fault injection: every allocation index of every call fails once"),
"C06":("model_checking",T%"request windows x lookbacks, window contract as reference model, guarded outputs"),
"C07":("model_checking",T%"request windows, compared with slices, poisoned and shifted arrays"),
"C08":("model_checking",T%"windows, histories, parameters and streaming lifecycles on exactly sized arrays under address and undefined-behaviour sanitizers, with two fills of uninitialised memory"),
"C09":("model_checking",T%"output-over-input overlays x windows"),
"C10":("model_checking",T%"histories through both precision entry points"),
"C11":("model_checking",T%"parameter vectors on and around every bound through every entry point"),
"C12":("model_checking",T%"bar histories, request windows and long parameters against frozen naive definitions"),
"C13":("model_checking",T%"bar windows, committed pattern occurrences and their single-bar deviations x settings against frozen pattern definitions"),
"C14":("model_checking",T%"bar histories x parameters, identities between the library's own results as oracle"),
"C15":("model_checking",T%"parameter vectors and streaming sessions through the abstract interface, direct call as reference"),
"C16":("model_checking",T%"operation sequences on parameter holders against a protocol model"),
"C17":("model_checking",T%"the complete introspection space against the frozen description and the observed functions"),
"C18":("model_checking",T%"operation sequences on the settings against a register model"),
"C19":("model_checking",T%"settings vectors, every unrelated register altered around every value of the related ones"),
"C20":("model_checking",T%"interleavings of the steps of two streaming objects with batch calls, with the library's data segment write-protected"),
"C21":("model_checking",T%"lifecycle operation sequences up to a depth against a protocol model"),
"C22":("model_checking",T%"bar histories over dyadic, decimal, extreme and degenerate alphabets, range/order/finiteness invariants"),
"C23":("model_checking",T%"the complete API description, walked element by element against introspection and the real functions"),
"C25":("model_checking",T%"bar histories x changes of unit and level, the code's own result in the old unit as oracle"),
"C26":("model_checking",T%"bar histories x their mirror images, the code's own result on the original as oracle"),
"C24":("model_checking",T%"bar histories x parameters/settings with the allocation balance as invariant"),
}
NA={}
props=[json.loads(l)["id"] for l in open(V+"/properties.jsonl")]
NOTE=json.load(open(V+"/tools/notes.json")) if os.path.exists(V+"/tools/notes.json") else {}
m={"version":1,"setup_cmd":"bash build.sh plain && bash build.sh asan" if "C08" in C else "bash build.sh plain","checks":[]}
for p in props:
    if p in C:
        l,t=C[p]; m["checks"].append({"property":p,"quick_cmd":"bash check.sh %s quick"%p,"thorough_cmd":"bash check.sh %s thorough"%p,"technique":t,"level":l,"level_note":NOTE.get(p,"exhaustive within the bounds in the evidence file; runs the real code, no abstraction")})
m["not_applicable"]=[{"property":p,"reason":NA.get(p,"check not built yet")} for p in props if p not in C]
json.dump(m,open(V+"/MANIFEST.json","w"),indent=1); print(len(m["checks"]),"checks")
