import json,re
props=[json.loads(l) for l in open('/verif/properties.jsonl') if l.strip()]
bounds=json.load(open('/verif/harness/bounds.json'))
how=dict(
B01="Harness: every Put/Get pair is executed with symbolic component values, and the memory around the element is symbolic too. Oracle: an independent layout function in the harness (little-endian components, matrix columns on 4-byte boundaries) and `bit pattern equal`.",
B02="Harness: `binary.Write` then `binary.Read` of all 44 slice types with symbolic elements into a symbolic dirty buffer; every byte of the buffer is compared with a layout oracle computed from offsets `i*stride`, including the bytes between and behind elements, which must keep their old value.",
B03="Harness: buffer length and stride are symbolic 64-bit integers; the oracle decides in 128-bit-safe arithmetic (harness code without overflow) whether the data fits. Any panic, overrun or changed byte is an assertion failure. Loops run over symbolic bounds and are unrolled per count 0..3.",
B04="Harness: symbolic component code, accessor code and count; oracle tables of the specification's component counts and sizes written in the harness; backing buffers of many capacities, contents symbolic.",
M01="Harness: symbolic data is written by every modeler write function into documents with a symbolic past; afterwards an independent well-formedness checker over the whole document (indices, view ranges, alignment, byte lengths, types, targets) and `everything before is unchanged` are asserted.",
M02="Harness: write then read with the matching helper, with unrelated writes before and after and dirty reuse buffers; `same bits` is asserted for every element; promised conversions are compared with gltf.Normalize*/plain widening.",
M03="Harness: symbolic finite positions; oracle: a loop of < and > over the same terms. The solver decides the floating-point comparisons.",
M04="Harness: documents are built from explicit byte layouts (offset, stride, sparse indices and values symbolic); oracle: element i at view offset + accessor offset + i*stride, then sparse replacement, computed byte-wise in the harness. Reuse buffers and earlier reads (pool contents) are symbolic.",
M05="Harness: every integer in accessors, sparse descriptors, views and buffers is an unconstrained symbolic 64-bit value; the only assertions are no panic, no allocation disproportionate to the referenced data, results inside the view.",
M06="Harness: two reads; the first result is overwritten with symbolic bytes, then document and second result are compared, and the other way round.",
M07="Harness: every helper and attribute with every type of data; oracle: the tables of allowed types that M01 and M02 write with. Accepted if and only if in the table (a panic is recovered, an error returned otherwise), and refused data leaves a document equal to its snapshot.",
N01="Harness: the four normalize/denormalize pairs on symbolic codes and floats. IEEE arithmetic is bit-blasted by the solver, helped by interval lemmas (monotone rounding) that are derived from the constraints.",
N02="Harness: the eight color functions. `math.Pow` is an uninterpreted function with sound facts (maps [0,1] to [0,1], fixes 0 and 1, increasing, enclosures with relative error 1e-9 for interval arguments). The transfer curve in the harness is written with the same function, so equal formulas give equal terms.",
J01="Harness: marshal a value whose optional members are symbolic (present/absent decided by forks), unmarshal with the real code, compare effective values through OrDefault functions and the harness's own table of defaults.",
J02="Harness: for each accessor a symbolic stored value or none; compared bit by bit with the stored value or the specification's default; the object must not change.",
J03="Harness: every enumeration value against a table of the specification's codes, both directions, plus symbolic unknown accessor names.",
J04="Harness: marshal/unmarshal (twice) of extensions and extras placed in every one of the 35 kinds of objects, with symbolic text (alphabet of JSON punctuation) and numbers, registered and unregistered.",
J05="Harness: symbolic data through EmbeddedResource, the encoder and the decoder; an independent base64 decoder in the harness is the oracle; malformed texts over an alphabet.",
J07="Harness: put an arbitrary float64 (or an unmarshalable value) at any place of a full document and encode; replace any member of its JSON text by a value of any other kind and decode. Oracle: error if and only if the number is not finite, and if and only if the JSON text was changed.",
J06="Harness: decode three times, overwrite everything reachable from the first result, compare the other two and a fourth decoding.",
G01="Harness: encode to an in-memory writer and parse the bytes with an independent GLB parser in the harness (header, chunk lengths, padding). Lengths up to 2^32+100 use `sym.BigBytes` (a symbolic-length object that is never materialised).",
G02="Harness: encode, then decode through readers that split the input in symbolic places; field by field equality of two documents built from the same symbols. The JSON text of a symbolic number is a token of one byte (see JSON model).",
G03="Harness: symbolic header bytes, chunk headers, JSON integers, single characters; JSON texts cut at every byte; null in place of every object. Asserted: no panic, limited allocation, sound data when there is no error.",
G04="Harness: writers, readers and file systems whose every operation can fail (the solver-driven executor forks at each operation between success and each kind of failure, up to the stated number of failures). Oracle: failure happened implies an error; no failure implies success; files closed exactly once.",
G05="Harness: symbolic URIs against a recording file system; every name passed to Open/Create is checked by the harness for being local. The real net/url, path and path/filepath code is executed symbolically.",
G06="Harness: encode into an in-memory file system with symbolic names and data, decode from it.",
G07="Harness: two equal documents built from the same symbols without shared memory; one is encoded (with faults) several times; the two must stay equal, including the memory behind buffers; outputs must be equal.",
G08="Harness: Save, SaveBinary and Open against a model of the operating system's files (see models), in a directory that the harness creates; the state of the modelled directory before and after is compared.",
C01="Harness: `sym.Race(a, b)` with two operations. The engine executes them one after the other and records every access to memory and maps together with the locks held (mutexes, sync.Once), atomics, and what is handed over through sync.Pool. Two accesses by different operations that overlap (for symbolic positions: a solver query), of which one writes, without a common lock or handover, are a data race in some schedule: without one, all schedules are equivalent to the ones executed. Counterexamples are replayed with the operations in two goroutines of a binary built with Go's race detector, and only reported if it (or a crash or deadlock) confirms.",
)
missed={} # seeds that no check catches
order=[p['id'] for p in props]
D=[]
w=D.append
w(open('/verif/tools/design/head.md').read())
w("\n## Properties\n")
for p in props:
    i=p['id']
    w(f"### {i} {p['title']}\n\n{how[i]}\n\nBounds: {bounds[i]}.\n")
import glob,os
t="| change | property | needs | caught by |\n|---|---|---|---|\n"
for m in sorted(glob.glob('/verif/seeded/*/meta.json')):
    x=json.load(open(m)); i=os.path.basename(os.path.dirname(m))
    t+=f"| {i} | {x['property']} | {x['needs']} | {missed.get(i,x['property'])} |\n"
w(open('/verif/tools/design/tail.md').read().replace('SEEDTABLE',t))
open('/verif/DESIGN.md','w').write("\n".join(D))
