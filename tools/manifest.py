import json,os
os.chdir(os.path.dirname(os.path.abspath(__file__))+'/..')
AI="abstract interpretation of the SSA form in product with a specification automaton (summaries, fixed point)"
note_ai=("Covers every input of every length over a finite partition of the tokens (or characters), within the bounds listed in the evidence: "
 "kinds of constraints per column, kinds of table constraints per table, bracket depth. Reports only certain differences; where precision is lost the point is listed as undecided in the evidence and raises no alarm. "
 "Trusts the SSA builder, the models of the library functions, the specification automata written from the README, and that the stages meet at the token lists the specification gives.")
T={}
for p in ['C01','C02','C03','C04','C05','C06','C07','C08','C09','C10','C11','C12','C13','C14','C15','C16','C17','C18','C23']:
    T[p]=(AI,note_ai)
T['C01']=("abstract interpretation of the SSA form: panic reachability over all abstract states",note_ai)
T['C02']=("abstract interpretation of the SSA form: cycles of the state graph that consume no input",note_ai)
T['C19']=("interprocedural effect analysis (flow of package-level memory, ambient calls, map order) on SSA","All functions reachable from the exported API over a conservative call graph; trusts the list of library functions with ambient effects and the absence of unsafe and reflection.")
T['C20']=("abstract interpretation of ParseForce with the stages replaced by contracts, all outcome combinations","Enumerates all 64 combinations of stage outcomes of the three dialects symbolically; trusts that stages depend on nothing but dialect and text (C19).")
T['C21']=("abstract interpretation of the entry points with the stages replaced by contracts, and dialect cross-analysis of the stages","Every entry point, dialect and stage outcome; identity of the stage value and of its argument is tracked symbolically.")
T['C22']=("allocation and sharing rules on SSA (flow of package-level memory, reused buffers, doubly stored lists)","Flow-insensitive through struct fields; rules are chosen to report only sharing that certainly happens on some path. Trusts the absence of unsafe and reflection.")
T['C24']=("type-level check of declarations and tags, dataflow of Error","Declarations are compared completely; the error text is decided from the SSA of Error. Trusts encoding/json's documented treatment of tags.")
checks=[]
for p in sorted(T):
    checks.append(dict(property=p,quick_cmd=f"bash run.sh {p} quick",thorough_cmd=f"bash run.sh {p} thorough",evidence_file=f"evidence/{p}.json",technique="static analysis: "+T[p][0],level="other",level_note=T[p][1]))
m=dict(version=1,setup_cmd="bash setup.sh",checks=checks,
 not_applicable=[dict(property="C25",reason="Quantifies over run-time stack and heap in bytes: the depth of recursion is that of the input (brackets, and one frame per token in several recursive loops) and the size of frames is the compiler's choice, so no sound static bound in reach decides it; a run-time test would not be static analysis.")],
 notes="One analyser (analyzer/, Go, vendored x/tools) decides all properties; see DESIGN.md. known-findings.txt lists the defects that were repaired; none is open.")
json.dump(m,open('MANIFEST.json','w'),indent=1,ensure_ascii=False); open('MANIFEST.json','a').write('\n')
import jsonschema
jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
