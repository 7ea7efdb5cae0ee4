#!/usr/bin/env python3
# regenerates MANIFEST.json
import json
T={
"C01":("translation_validation","abstract interpretation of the compiler's SSA on grammar-directed schemas with opaque values; the emitted Bash template is evaluated in a model of Bash and compared with a reference semantics on every relation of the values","Schemas of bounded size; the Bash model and the reference front-end are trusted."),
"C02":("translation_validation","as C01, on schemas of calls, parameters, returns, globals and name coincidences","Schemas of bounded size; the Bash model and the reference front-end are trusted."),
"C03":("translation_validation","as C01, on schemas of slice aliasing, growth, copy, ranges and substrings","Schemas of bounded size; the Bash model and the reference front-end are trusted."),
"C04":("translation_validation","as C01, with every operand position filled by a function whose evaluation is visible","Schemas of bounded size. Plain variable reads interleaved with a later call that writes the variable are only decided for the listed strict schemas."),
"C05":("translation_validation","as C01-C04 for the Batch back-end: the emitted template is evaluated in a model of cmd.exe (parse-time and delayed expansion, label search, call frames, 32-bit arithmetic)","Schemas of bounded size; the cmd.exe model and the reference front-end are trusted."),
"C11":("other","abstract interpretation of the lexer's SSA on schemas of every token, escape and comment form, alone and joined to every other, with opaque characters; the token list, values and positions are compared with a reference grammar","The lexer is decided on bounded texts: all token pairs and listed triples, all escape forms, all byte classes; positions and values are compared for each."),
"C12":("other","abstract interpretation of the whole compiler: programs that visit every statement form are analysed under every relayout (token gap and line-break variants); acceptance and the emitted template must be identical","Bounded set of programs and layouts; relayouts are applied at every gap of every program."),
"C16":("other","abstract interpretation of the compiler on every statement form in every block context (plus the C01-C04 schemas); the emitted Bash template is parsed, the emitted Batch template is checked structurally: parentheses, labels, routines, helper use, loop and routine containment of jumps","Bounded programs; bash -n is replaced by the checker's own Bash grammar."),
"C08":("translation_validation","abstract interpretation of the compiler on every kind of use of a string x every source of a string; the emitted Bash template is evaluated in a model of Bash with an opaque value (taint-style hazard analysis: unquoted expansion, eval, option position, format, pattern, stripped line breaks) and with a table of hostile values, against the reference semantics","Bash only (cmd.exe cannot carry these values; C05 covers its neutral alphabet). Table of hostile values and, in the thorough tier, all two-character printable strings."),
"C17":("translation_validation","abstract interpretation of the compiler on every write/read/exists sequence of a table x path form x path x content; the emitted Bash template is evaluated over a model of the file system in which each written path is an event, against the line-store meaning","Bash only; bounded sequences, table of paths and contents, plus opaque contents."),
"C18":("translation_validation","abstract interpretation of the compiler on every shape of command call in every context; the emitted Bash template is evaluated with recording models of the programs: argument vectors, standard inputs, captured output and status, printed output","Bash only; pipes of up to four programs; standard error is not captured by the Bash back-end and is not part of the property."),
"C06":("other","abstract interpretation of the compiler on every typed position of the grammar x every form of expression of every type (including calls without or with several values) x block context, for both targets; an independent type checker for the language decides which programs must be translated and which rejected","Bounded programs (one position under test per program); Go's rules where Go and the README are silent about acceptance are left undecided (listed in DESIGN.md)."),
"C07":("other","abstract interpretation of the compiler on every pair of a declaration form and a use form (or two declaration forms) at every pair of places of skeleton programs, as main and as imported file, for both targets; an independent lexical-scope checker decides which programs must be translated; accepted programs are also evaluated in the Bash model against the reference meaning","Skeleton programs of bounded size; the reference scope checker is trusted."),
"C09":("translation_validation","abstract interpretation of the compiler on programs of up to five files: all import graphs, cyclic graphs, every position of a call in every kind of file, chosen content hashes (digits, exponent-like, colliding), equal contents and names, all import forms and foreign accesses; both emitted templates are evaluated against the composition of the modules, programs which do not link must be rejected","Bounded number of files and calls; content hashes are chosen values of the modelled SHA-256."),
"C13":("other","abstract interpretation of the compiler (tokenizer included) on token lists with holes that stand for any token, split lazily, at every position of a corpus; cuts, omissions, repetitions, byte-level edits, missing and cyclic files; every path must end with a script or with an error, and the number of executed instructions may grow only polynomially along families of programs","Up to two unknown tokens at a position (three in the thorough tier); inputs nested millions deep exceed the stack of any recursive-descent parser and are outside the bound."),
"C14":("other","abstract interpretation of the whole compiler in modelled processes that differ in map iteration order, time, randomness, environment, addresses, working directory, location of the tree and of the executable, and further files; and in sequences of transpilations on shared transpiler objects with changing programs, targets and contents; every outcome must equal that of a fresh process byte for byte; effects of the library are enumerated","Map orders are a set of permutations (reverse, rotated, shuffled) per range statement; sequences of two steps exhaustively over the corpus, longer ones sampled by a fixed generator."),
"C19":("other","abstract interpretation of main.main (whole compiler included) over a model of the file system: all option orders, repetitions of targets, file names, directories, accepted and rejected programs, earlier outputs, bad options, links, unreadable and unwritable files; exit status and all files afterwards are compared with a specification derived from the library's result","Up to five -t options; a write error in the middle of a file is not modelled (os.WriteFile either succeeds or fails before it changes the file)."),
"C15":("translation_validation","programs that call the bundled library (current source of std/strings.tsh) are translated by abstract interpretation of the compiler's SSA; the emitted Bash text is evaluated in a model of Bash over an abstract domain of texts of opaque characters of which only equality is known (one evaluation per partition of the positions into equal characters covers all ordinary characters), plus concrete texts over blanks and every printable character; every result must be that of Go's function of the same name","Bash only. Texts of up to 5 (thorough 6) + 3 opaque characters, all counts -2..4 (Repeat 0..4: Go panics for negative counts), slices of up to 3 (4) elements; longer texts are samples."),
"C10":("translation_validation","the names of the emitted scripts are collected from translations (by abstract interpretation of the compiler's SSA) of programs with neutral names; the emitted forms of every identifier are unified with all other names of the scripts (case-insensitively in Batch), with each other and with the names of the shells, which yields the spellings that could be captured; each such spelling must be rejected or its script must mean, in the model of its shell, what the program means","The programs are a fixed set that uses every construct; single renamings and pairs. Bash pipelines, files, input and std library only for Bash."),
}
import os,sys
p=os.path.join(os.path.dirname(os.path.abspath(__file__)),'manifest_more.json')
if os.path.exists(p):
    for k,v in json.load(open(p)).items(): T[k]=tuple(v)
NA={}
ids=["C%02d"%i for i in range(1,20)]
m={"version":1,"setup_cmd":"./run.sh build","checks":[],"not_applicable":[]}
for i in ids:
    if i in T:
        l,t,n=T[i]
        m["checks"].append({"property":i,"quick_cmd":"./run.sh %s quick"%i,"thorough_cmd":"./run.sh %s thorough"%i,"technique":"static analysis: "+t,"level":l,"level_note":n,"evidence_file":"evidence/%s.json"%i})
    else:
        m["not_applicable"].append({"property":i,"reason":NA.get(i,"no check built yet (work in progress)")})
json.dump(m,open('MANIFEST.json','w'),indent=1)
