#!/usr/bin/env python3
# Writes MANIFEST.json from properties.jsonl and the table below.
import json,os
here=os.path.dirname(os.path.abspath(__file__))
props=[json.loads(l) for l in open(here+'/properties.jsonl')]
HOOK_COMMITS=["3700f48a8234f2680eb3860d4b9e7da59a815387"]
NOTE={
 'H01':('generated files against a reference image (round trip)','generated Intel-HEX files, 1..8 CPUs; reference image kept by the generator'),
 'H02':('fault injection into generated files','one damage per generated file must be rejected; only damages the format makes detectable'),
 'H03':('metamorphic: CPU counts, repetition, concurrent loads','schedules sampled by running under 1..8 CPUs and concurrent loads, not enumerated'),
 'H04':('mutation fuzzing with a spelled-out-bytes oracle','arbitrary contents; crash, hang and invented-byte detection'),
 'S01':('generated files against a reference image (round trip)','generated S3 files, 1..8 CPUs; reference image kept by the generator'),
 'S02':('fault injection into generated files','one damage per generated file must be rejected'),
 'A01':('generated modules against the generator\'s syntax tree','identifier sets and contents of generated single-module files, 1..8 CPUs'),
 'A02':('generated definitions against the generator\'s syntax tree','every written attribute compared with the parsed field, unwritten ones must be unset'),
 'A03':('generated definitions against the generator\'s syntax tree','every written attribute compared with the parsed field, unwritten ones must be unset'),
 'A04':('generated definitions against the generator\'s syntax tree','every written attribute and row compared with the parsed field'),
 'A05':('generated record layouts against the generator\'s syntax tree','every component, data type, index mode and addressing compared'),
 'A06':('generated definitions against the generator\'s syntax tree','file, project, MOD_PAR and MOD_COMMON content compared'),
 'A07':('metamorphic: two layouts of one word sequence','two renderings of generated files parse to equal dumps that match the syntax tree'),
 'A08':('metamorphic: CPU counts and repetition','outcome fingerprints on 1..8 CPUs; schedules sampled, not enumerated'),
 'A09':('fault injection into generated files','one structural fault per generated file must be rejected'),
 'A10':('grammar-based and byte mutation fuzzing','arbitrary contents; crash, hang and process-death detection'),
 'A11':('generated multi-module files, syntax tree and module-alone relation','2..5 modules, also copies with the same identifiers'),
 'A12':('stateful: generated histories of parses','each step judged by its own syntax tree or fault, earlier results re-compared at the end'),
 'C01':('stateful: generated pairs of files and histories of reads, differential','result equals what the two parsers return on their own; schedules sampled'),
 'C02':('generated file names and contents against a naming rule','extensions, letter case and directories drawn at random'),
 'C03':('generated modules against a reference lookup','identifiers shared between kinds and modules'),
 'C04':('stateful: generated sequences of good and bad reads, invariant over what is left','goroutine dumps, open descriptors and input bytes after each sequence'),
 'C05':('stateful and metamorphic: generated sequences and concurrent mixes of queries','answers compared with the first answer to the same question, content and image dumps before and after; concurrent mixes also under the race detector; schedules sampled'),
 'C06':('metamorphic: the same file with n and 4n repetitions of one part','processor time and allocated bytes of the two reads compared (factor 8 or 9 plus a constant; processor time measured up to five times); families up to 16 MB'),
 'C07':('stateful: generated sets of reads running at the same time','each read compared with what was written into its own file; also under the race detector; schedules sampled'),
 'C08':('fuzzing: structured and damaged A2L files that are accepted, images with holes, every question asked','no panic, hang or process death; inputs sampled'),
 'V01':('generated record layouts against a reference position map','all component kinds, with and without clashing positions'),
 'V02':('differential: generated bit patterns against an independent decoder','all data types and byte orders'),
 'V03':('generated settings and addresses against a reference rule','all data types and alignment levels'),
 'V04':('generated layouts and images against a reference layouter','direct axes, increasing index; function values not judged'),
 'V05':('generated conversion methods against the defining equation','exact small-integer arithmetic decides solvability'),
 'V06':('generated tables and probes against a reference lookup','rows, gaps, limits and defaults'),
 'V07':('generated address texts and constants against their written value','all byte orders, well-formed and malformed texts'),
}
PENDING={p['id'] for p in props}-set(NOTE)
checks=[];na=[]
for p in props:
    i=p['id']
    if i in NOTE:
        t,n=NOTE[i]
        checks.append({"property":i,"quick_cmd":f"bash run.sh {i} quick","thorough_cmd":f"bash run.sh {i} thorough",
          "technique":"property-based testing: "+t,"level":"exploration","level_note":n+". Holds on every generated case; no proof beyond them.","evidence_file":f"evidence/{i}.json"})
    else:
        na.append({"property":i,"reason":"check under construction"})
m={"version":1,"setup_cmd":"bash run.sh build",
 "hooks":{"guard":"verif","enable":"go build -tags verif (run.sh does it for V02..V07, C05 and C08)","source_commits":HOOK_COMMITS},
 "checks":checks,"not_applicable":na,
 "notes":"run.sh ID quick|thorough builds the harness from /repo's working tree through a go build overlay; run.sh ID replay FILE re-runs a recorded failure. known-findings.txt lists the repaired defects."}
json.dump(m,open(here+'/MANIFEST.json','w'),indent=1)
open(here+'/MANIFEST.json','a').write('\n')
