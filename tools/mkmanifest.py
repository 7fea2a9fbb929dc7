#!/usr/bin/env python3
# Writes /verif/MANIFEST.json from the checks registered in mon/*.go.
import json,os,re,glob
root=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..")
ids=set()
for f in glob.glob(os.path.join(root,"mon","c_*.go")):
    ids|=set(re.findall(r'register\(&Check\{ID: "(C\d+)"',open(f).read()))
props=[json.loads(l) for l in open(os.path.join(root,"properties.jsonl"))]
tech={
"C01":"runtime monitor on generated dictionaries and texts: tiling oracle over the returned morphemes, checkptr on",
"C02":"runtime monitor: recorders around the plugins see lattice and path; independent shortest-path and candidate oracle",
"C03":"runtime monitor over call histories: results compared with those of a fresh tokenizer",
"C04":"Go race detector under concurrent tokenizers with injected yields; results compared with a sequential run",
"C05":"stress with hostile texts in watched worker processes (panic, CPU time, heap), checkptr on",
"C06":"runtime monitor: split results compared with the source entries' units and between both routes",
"C07":"runtime monitor: morpheme attributes compared with the generated source entries",
"C08":"runtime monitor: same words observed under 0-15 user dictionaries, compared with source model and auto-cost oracle",
"C09":"runtime monitor: trie queries compared with a sorted-map model, checkptr on",
"C10":"runtime monitor: build, reopen and compare with the generated sources; determinism by rebuilding",
"C11":"runtime monitor: conversion round trips compared byte for byte, tokenization digests compared",
"C12":"fault injection into sources; monitor on errors, exit statuses and on what was written on success",
"C13":"runtime monitor: text seen between plugins compared with a reference normalizer and offset map",
"C14":"runtime monitor: recorded OOV provider calls compared with a model of the definition files",
"C15":"runtime monitor: path before and after the joiner checked against a numeral oracle in big arithmetic",
"C16":"runtime monitor: path and lattice before the joiner fed to a model of katakana joining, compared with the path after",
"C17":"runtime monitor: generated settings documents compared with a settings model; fault injection into settings",
"C18":"runtime monitor on the real command: output compared with library results under chunked input and options",
"C19":"runtime monitor: printed lexicons parsed and compared with sources, rebuilt and compared",
"C20":"fault injection at every file read; monitor on errors, exit statuses, open files and memory mappings",
"C22":"runtime monitor: the dump compared with the lattice and paths that recorders saw and the connection costs of the sources",
"C23":"runtime monitor: a plugin reads every view of text and lattice at all positions and ranges, compared with a model of the rewritten text; checkptr on",
"C24":"fault injection at every reader, writer and command; monitor on errors, exit statuses and completeness of output",
"C25":"runtime monitor: traces of all plugin calls checked against the order specification, with injected plugin errors; lattice and path compared around the helpers",
"C21":"runtime monitor: connection costs and chosen paths compared with the configured inhibitions",
}
checks=[];na=[]
for p in props:
    i=p["id"]
    if i in ids:
        checks.append(dict(property=i,quick_cmd="./run.sh "+i,thorough_cmd="./run.sh "+i+" thorough",technique=tech[i],level="exploration",
          level_note="Generated executions of the real code, judged by an oracle; the evidence file counts what was observed. Nothing beyond the executions made is claimed."))
    else:
        na.append(dict(property=i,reason="check not built yet"))
m=dict(version=1,setup_cmd="true",checks=checks,not_applicable=na)
json.dump(m,open(os.path.join(root,"MANIFEST.json"),"w"),indent=1,ensure_ascii=False)
open(os.path.join(root,"MANIFEST.json"),"a").write("\n")
