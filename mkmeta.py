"""Regenerates MANIFEST.json and known_findings.json (hashes of the fix commits by subject)."""
import json,subprocess
log=subprocess.check_output(['git','-C','/repo','log','--format=%h %s']).decode().splitlines()
H={l.split(' ',1)[1]:l.split(' ',1)[0] for l in log}
FIX=[
("C16","fix: resolving a directory without any entry fails instead of panicking","an empty directory, or one whose main fields and files lead nowhere, panicked"),
("C05","fix: a failed node_modules level no longer changes the request of the outer levels","a partial package in a near node_modules made outer levels look for another request"),
("C21","fix: split a non-ASCII package name at a byte offset","a non-ASCII package name panicked or lost characters"),
("C03","fix: a path request applies its .. to the path, not to the file system","'..' behind a missing directory or a link went through the file system"),
("C04","fix: a failed main field or main file no longer moves the lookup of the next one","after a dangling main the next candidate was looked for in another directory"),
("C06","fix: an exact exports/imports key below a folder or with non-ASCII characters has no remainder","an exact key below a folder key got a remainder"),
("C06","fix: '$' in the part matched by an exports/imports wildcard is not doubled","'$' in the matched part was doubled"),
("C07","fix: empty and dotted segments no longer let an exports/imports target leave the package","'.' and empty segments were counted as directories, so a target could leave the package"),
("C16","fix: null and malformed values in exports/imports no longer panic","null or malformed exports/imports values panicked"),
("C16","fix: `true` in a browser field no longer panics","true in a browser field panicked"),
("C14","fix: an imports tree is no longer cached as an exports tree","equal exports and imports contents shared one cached tree"),
("C13","fix: notice a description file that appears or disappears, and never loop on a missing directory","created and deleted description files went unnoticed; a missing directory looped for ever"),
("C13","fix: a description file's cache entry is compared with the time of that very entry","an edit was missed when another reader had already refreshed the file's entry"),
("C14","fix: resolvers that share a cache may name the description file differently","a shared cache gave one resolver the description file of another name"),
("C08","fix: the browser and imports fields of the importing package apply to its requests","the fields of some other package were applied"),
("C21","fix: a directory whose name merely contains `node_modules` is not node_modules","a directory such as my_node_modules was taken for node_modules"),
("C16","fix: a request for a bare scope no longer panics","a request such as '@s' panicked"),
("C08","fix: an imports target that names a module is resolved like any other module of the package","bare imports targets were not looked up through the hierarchy"),
("C02","fix: the query and fragment of a `#` request are kept","the query of a '#' request was lost"),
("C16","fix: imports targets that lead to each other in a circle no longer overflow the stack","circular imports overflowed the stack"),
("C06","fix: the exports field of a package's root, and of nothing else, guards the package","a nested description file's exports was applied, or hid the package's own"),
("C06","fix: a package refers to itself by its exact name, with or without a node_modules directory","self-reference matched by prefix and only next to a node_modules directory"),
("C19","fix: which of several matching browser keys applies no longer depends on hashing","the outcome depended on hash order"),
("C16","fix: browser keys that map to each other in a circle no longer overflow the stack","circular browser keys overflowed the stack"),
("C10","fix: a file of a package that browser maps to a module is looked up as a module","a file mapped to a module was not found"),
("C16","fix: aliases, main fields and browser maps that lead back to themselves no longer overflow the stack","self-referencing aliases and mains overflowed the stack"),
("C16","fix: malformed or circular tsconfig files and non-ASCII requests no longer panic","malformed tsconfig files panicked or looped"),
("C11","fix: which tsconfig pattern applies no longer depends on hashing, and none applies to a relative request","pattern choice depended on hash order; relative requests were mapped"),
("C11","fix: a request mapped by tsconfig paths keeps its query and its trailing slash, and its .. is lexical","query and trailing slash of a mapped request were lost"),
("C11","fix: an inherited tsconfig baseUrl is relative to its own file, and paths replace the inherited ones","inherited baseUrl and paths were merged wrongly"),
("C21","fix: a path that is not UTF-8 is kept as it is","a non-UTF-8 root panicked or was mangled"),
("C16","fix: aliases that lead back to themselves in several ways no longer take exponential time","several mutually recursive aliases took exponential time"),
("C07","fix: a dotted segment in a request no longer reaches what exports or imports leave out","'pkg/x/../secret' reached an unexported file through a wildcard"),
("C07","fix: a query no longer cuts an exports target short","'pkg/lib/secret?x' reached ./secret through './lib/*': './*.js'"),
("C16","fix: give up sooner on aliases that lead back to themselves","mutually recursive aliases made over 400000 file-system calls"),
("C07","fix: what counts is a dotted segment in the part that an exports or imports pattern matches","'pkg/a..' reached an unexported file through './a*': './x/*/y.js'"),
("C16","fix: a deeply nested tsconfig fails instead of overflowing the stack","a tsconfig with thousands of nested brackets overflowed the stack"),
("C16","fix: a very long request no longer overflows the stack","a request with some ten thousand segments overflowed the stack"),
("C16","fix: a number out of range in a tsconfig no longer panics","a number such as 1e+400 in a tsconfig panicked"),
("C16","fix: a base directory of any depth no longer overflows the stack","a base path with some thousand segments overflowed the stack"),
("C04","fix: a request for a directory does not name a file of that directory","with an extension '.b' the request './src/' gave the file src/.b"),
("C10","fix: a browser key for a hidden file is not taken for its directory","with an extension '.b' a request for a package's directory followed the browser key './.b'"),
("C25","fix: `assert/strict` is a module of Node.js","is_build_in_module(\"assert/strict\") was false, and true of \"assert/,strict\""),
("C16","fix: a description file that could not be parsed may be read again in debug builds","in a debug build the second request that met an invalid description file panicked"),
("C04","fix: a main field that names its own directory does not hide the next main field","with main_fields main and module, a package with \"main\": \".\" and a module field gave its index file"),
]
try: FIX+=json.load(open('/verif/fixed_more.json'))
except FileNotFoundError: pass
for l in log:
    s=l.split(' ',1)[1]
    if s.startswith('fix:') and s not in [f[1] for f in FIX]: print('unrecorded',l)
try: old=json.load(open('/verif/known_findings.json'))
except FileNotFoundError: old={"findings":[]}
json.dump({"findings":old["findings"],"fixed":[f"fixed: property={p} {H[s]} {w}" for p,s,w in FIX]},open('/verif/known_findings.json','w'),indent=1,ensure_ascii=False)
T={
"model":"property-based testing against an executable reference model, with shrinking",
"inv":"property-based testing: invariants and metamorphic relations over generated trees, options and requests",
"hist":"stateful property-based testing over generated histories, differential against a fresh resolver",
"conc":"randomised concurrent schedules with injected delays, differential against sequential answers",
"fault":"generated cases with a fault injected at every file-system call, differential against a fresh resolver",
"fuzz":"structure-aware fuzzing with work, stack and time limits",
"oracle":"differential property-based testing against Node.js and enhanced-resolve",
}
K={}
for i in "C03 C04 C05 C06 C08 C09 C10 C11".split(): K[i]="model"
for i in "C01 C02 C07 C18 C19 C20 C21 C22 C23 C24 C25".split(): K[i]="inv"
for i in "C13 C14".split(): K[i]="hist"
K.update(C15="conc",C17="fault",C16="fuzz",C12="oracle")
NOTE={
"model":"Held on every generated case: random trees, options and requests run through the real resolver and compared with an independent model of the documented rules. Trusts the model (itself cross-checked with Node.js and enhanced-resolve in C12); inputs the rules leave open are counted as outside the domain.",
"inv":"Held on every generated case; the oracle is the file system itself, a second run under a transformed input, or the reference model. Sampling, not proof.",
"hist":"Held on every generated history: after every step the long-lived resolver is compared with a fresh one. Sampling of histories; modification times are set explicitly, at least 1 s apart.",
"conc":"Held in every executed schedule: real threads with random delays injected at file-system calls. Schedules are sampled by the operating system, not enumerated.",
"fault":"For every generated case each file-system call (up to a cap) is failed once per errno, or an edit is made at it. Calls are intercepted by overriding the C library's symbols in the harness.",
"fuzz":"Every generated request returned within the limits on file-system calls, CPU time, memory and an 8 MB stack. Sampling, not proof.",
"oracle":"Agreement on every generated case inside the shared domain with the installed Node.js 22 and enhanced-resolve 5.26. Trusts those two programs.",
}
ids=subprocess.check_output(['/verif/target/release/vh','list']).decode().split()
props=[json.loads(l)["id"] for l in open('/verif/properties.jsonl')]
m={"version":1,"setup_cmd":"./run.sh setup",
"checks":[{"property":i,"quick_cmd":f"./run.sh {i} quick","thorough_cmd":f"./run.sh {i} thorough","technique":T[K[i]],"level":"fault_enumeration" if i=="C17" else "exploration","level_note":NOTE[K[i]]} for i in props if i in ids],
"not_applicable":[{"property":i,"reason":"check under construction"} for i in props if i not in ids],
"notes":"No hooks in /repo: the harness uses the public API only. run.sh rebuilds the crate from /repo's working tree on every run."}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
