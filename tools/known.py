import subprocess
log=subprocess.check_output(['git','-C','/repo','log','--reverse','--format=%h %s'],text=True).splitlines()
pm={'constants that do not fit':'C11','types of enum, bitmask and compound values':'C11','functions that return an instance':'C14','shifting a numeral':'C11','used without arguments':'C15','values of optional fields':'C13','numbits had no type':'C11','signed integers with uint64':'C11','duplicate fields, parameters':'C15','default values and case labels':'C15','exponential time':'C15','nested too deeply':'C15','members of any compound':'C15','hide constants':'C11','templates of other packages resolved':'C14','array elements of more than 64':'C08','report bit fields':'C15','default values of enum':'C20','lower-case':'C13','template instances':'C14','range of packed':'C06','contain themselves':'C03',
'package names that mean':'C13','keep only the imports':'C13','choice selectors and cond':'C10','bitmask values given':'C18','values of enum items':'C11','evaluate symbols in':'C20','imports of single':'C13',
'similar names must':'C12','generated file names':'C16','found by several':'C16','maximum path length':'C16','only generate the requested':'C16','every directory':'C16','duplicate declarations':'C15','report syntax errors':'C15',
'unsynchronized':'C17','do not allocate':'C05','must match their size':'C06','align to boundaries':'C09','more than 64 bits must fail':'C08','comparisons of floats':'C11','ternary':'C11','bitwise operators':'C11','comparisons of integers':'C11',
'reject dots':'C15','function calls have':'C11','array elements in expr':'C11','unary operators':'C11','constant divisions':'C15','precedence':'C11','float values of':'C20','lose precision':'C20','numbits':'C11','isset':'C11',
'absent conditional':'C04','presence bit':'C02','JSON name':'C13','default field of a choice was not resolved':'C13','functions of choices':'C11','only a default case':'C10','context of the default case':'C10','no case matches':'C10','several conditions':'C10','packed arrays of unions':'C03','zero-based':'C02',
'both negative':'C03','can not be delta packed':'C03','length prefix of auto':'C04','must include their length':'C04','bit size of packed':'C04','ignored the array':'C04','fixed size elements':'C04','string array elements':'C04','varint, varuint':'C04','varint64 must':'C07','packed array descriptor':'C05','fit the field width':'C06','writing array elements':'C06'}
out=["# Known findings. 'fixed:' lines are repaired defects (nothing is suppressed for them).",
"# 'finding:' lines are defects that are recorded, each with the witness that shows it."]
for l in log:
    h,s=l.split(' ',1)
    if not s.startswith('fix: '): continue
    w=s[5:]
    ps=[p for k,p in pm.items() if k in w]
    assert len(ps)>=1,w
    out.append(f'fixed: property={ps[0]} {h} {w}')
extra=open('/verif/known/findings.txt').read() if __import__('os').path.exists('/verif/known/findings.txt') else ''
open('/verif/KNOWN-FINDINGS.txt','w').write('\n'.join(out)+'\n'+extra)
