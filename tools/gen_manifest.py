#!/usr/bin/env python3
# Writes MANIFEST.json from the table below; run it after adding a check.
import json,os
T={
"C01":("Go harness under AddressSanitizer, checkptr and plain builds; oracle: no panic or crash, termination, allocation counters against a bound","hostile workloads (mutated, truncated, hand-made bombs, arbitrary bytes) on the real decoder with sanitizers and an allocation monitor"),
"C02":("differential runtime oracle: decoded graph against a model of the encoded value","random values and encoder configurations through the real encoder and decoder, both builds"),
"C03":("runtime oracle over generated Go types: deep comparison of typed round trips","reflect.StructOf types with random values"),
"C04":("runtime oracle over random pointer graphs: identity bijection","graphs with shared, cyclic and address-equal pointers"),
"C05":("strict independent parser and evaluator over encoder output","a parser written from sereal_spec.pod alone reads every document and must see the encoded value"),
"C06":("specification evaluator over generated documents, compared with the decoder","documents in all legal forms built from an AST whose meaning is known"),
"C07":("fault injection into well-formed documents; oracle: an error must be returned","every truncation of small documents plus a list of structural defects at random places"),
"C08":("enumeration of header combinations against a table from the specification","all combinations of magic, version and type through all entry points"),
"C09":("runtime oracle: header and body decoded alone and together","random header and body pairs, generated and encoded, with damaged bodies"),
"C10":("byte-exact oracle over decompression, with reference compressors","random documents, compressors, levels, thresholds and destination buffers, plain, pure-Go and AddressSanitizer builds"),
"C11":("strict independent parser over merged documents","random sequences of documents and merger configurations"),
"C12":("history monitor: merger with failed Appends against one without them","fault injection into documents; AddressSanitizer and checkptr builds"),
"C13":("monitor inside MarshalBinary and UnmarshalBinary: bytes, classes, errors","random payloads and positions"),
"C14":("history monitor: reused instances against fresh ones","random call sequences with failing calls"),
"C15":("Go race detector plus per-call result oracle under concurrent stress","goroutines on shared inputs with injected yields"),
"C16":("runtime oracle with trees of known depth","random nestings at every limit around their depth"),
"C17":("aliasing monitor: buffers are overwritten, instances reused, results compared","scribbling over inputs and results"),
"C18":("cross-implementation runtime oracle: Perl XS modules of the repository","random structures both ways through canonical dumps"),
"C19":("runtime oracle: meaning of the document before and after","generated Perl-like documents decoded and encoded again"),
"C20":("runtime oracle with math/big","generated numeric texts"),
"C21":("runtime oracle: typed against untyped decoding over generated types and documents","documents generated from a type in all legal forms"),
"C22":("Perl XS modules under AddressSanitizer and UBSan; reference-count audit and leak counters over everything decoded","hostile documents (mutated, spliced, crafted nesting and offsets) through every entry point and option, with and without sanitizers"),
"C23":("runtime oracle: evaluation of the generated tree against a scalar by scalar dump of what Perl holds; reference-count audit, leak counters, AddressSanitizer","well-formed documents in all legal forms through 16 entry points, each decoded three times"),
"C24":("runtime oracle: strict parser over what was written and scalar by scalar comparison of dumps before encoding and after decoding; leak counters, AddressSanitizer","random Perl values with magic, sharing and weak references, 9 entry points, random options, each encoded three times"),
"C25":("runtime oracle: what options have to refuse or change, computed from the generated tree; comparison with decoding without options or document by document; AddressSanitizer","limits around what each document has, every recursion limit, random sequences of documents at offsets, incrementally, from files, cut"),
}
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[json.loads(l) for l in open(here+'/properties.jsonl')]
src=''.join(open(here+'/harness/'+f).read() for f in os.listdir(here+'/harness') if f.endswith('.go'))
checks=[];na=[]
for p in props:
    i=p['id']
    import re
    if not re.search(r'ID:\s+"%s"'%i,src):
        na.append(dict(property=i,reason="the check is not written yet"));continue
    t,n=T[i]
    checks.append(dict(property=i,quick_cmd="bin/check "+i,thorough_cmd="VERIF_TIER=thorough bin/check "+i,technique=t,level="exploration",
      level_note="Observed executions only: "+n+". Trusts the harness' own model, the Go toolchain and the reference compression libraries; see DESIGN.md for what is left out."))
m=dict(version=1,setup_cmd="bin/setup",checks=checks,not_applicable=na,notes="bin/check ID runs one check; --replay FILE reruns a recorded case. No hooks in /repo are needed.")
json.dump(m,open(here+'/MANIFEST.json','w'),indent=1);open(here+'/MANIFEST.json','a').write("\n")
print(len(checks),"checks",[x['property'] for x in na])
