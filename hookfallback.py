#!/usr/bin/env python3
"""hookfallback.py ID REPO: prints a hook file with those of the hooks property ID needs that still build, so that a
change to an unexported function only takes away what is observed through it. The other hooks are stubs: they end the
case, or answer nothing (C05 and C08, which ask whatever can be asked). A function that has been renamed, or whose
parameters have been reordered, is found by the types it takes and returns."""
import difflib,glob,json,os,re,subprocess,sys,tempfile
NEED={'V02':['Decode'],'V03':['Align'],'V04':['ReadValues'],'V05':['Convert'],'V06':['Convert','Verbal','VerbalRange'],'V07':['Address','Constant']}
F={
'ReadValues':('cd *CalibrationData, c *a2l.Characteristic, rl *a2l.RecordLayout','map[string]interface{}','''	cv := NewCharacteristicValues(c, rl)
	getValuesFromHex(cv, cd)
	return verifFields(cv)'''),
'Decode':('cd *CalibrationData, b []byte, dte a2l.DataTypeEnum','(float64, error)','	return cd.convertByteSliceToDatatype(b, dte)'),
'Align':('cd *CalibrationData, address uint32, dte a2l.DataTypeEnum, rl *a2l.RecordLayout','uint32','	return cd.getNextAlignedAddress(address, dte, rl)'),
'Convert':('cd *CalibrationData, dec float64, cm *a2l.CompuMethod','(float64, error)','	return convDecToPhy(dec, cm, cd)'),
'Verbal':('cd *CalibrationData, dec float64, t *a2l.CompuVTab','(string, error)','	return calcTabVerb(dec, t, cd)'),
'VerbalRange':('cd *CalibrationData, dec float64, t *a2l.CompuVTabRange','(string, error)','	return calcTabVerbRange(dec, t, cd)'),
'Address':('cd *CalibrationData, text string','(uint32, error)','	return cd.convertStringToUint32Address(text)'),
'Constant':('cd *CalibrationData, ident string','(string, error)','	return cd.getSystemConstantValue(ident)'),
}
need=NEED.get(sys.argv[1],list(F))
stub='zero' if sys.argv[1] in ('C05','C08') else 'panic'
ZERO={'map[string]interface{}':'nil','(float64, error)':'0, nil','uint32':'0','(string, error)':'"", nil','(uint32, error)':'0, nil'}
def source(need,stub):
    out='//go:build verif\n\npackage calibrationReader\n\nimport (\n\t"reflect"\n\t"strings"\n\n\t"github.com/asap2Go/calibrationReader/a2l"\n)\n\n'
    for n,(args,res,body) in F.items():
        out+=f'func Verif{n}({args}) {res} {{\n'+(body if n in need else '\tpanic("hook not available")' if stub=='panic' else '\treturn '+ZERO[res])+'\n}\n\n'
    return out+FIELDS
FIELDS='''// verifFields returns the fields of the values by the name of the record layout component.
func verifFields(cv interface{}) map[string]interface{} {
	out := map[string]interface{}{}
	v := reflect.ValueOf(cv).Elem()
	for i := 0; i < v.NumField(); i++ {
		n := strings.TrimSuffix(strings.TrimSuffix(v.Type().Field(i).Name, "s"), "Value")
		n = strings.ToUpper(n[:1]) + n[1:]
		switch n {
		case "AxisX", "AxisY", "AxisZ", "Axis4", "Axis5":
			n = "AxisPts" + n[4:]
		}
		if !strings.Contains(" AxisPtsX AxisPtsY AxisPtsZ AxisPts4 AxisPts5 DistOpX DistOpY DistOpZ DistOp4 DistOp5 Identification NoAxisPtsX NoAxisPtsY NoAxisPtsZ NoAxisPts4 NoAxisPts5 NoRescaleX OffsetX OffsetY OffsetZ Offset4 Offset5 ShiftOpX ShiftOpY ShiftOpZ ShiftOp4 ShiftOp5 ", " "+n+" ") {
			continue
		}
		f := v.Field(i)
		if f.Kind() == reflect.Interface {
			f = f.Elem()
		}
		switch f.Kind() {
		case reflect.Invalid:
			out[n] = nil
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			out[n] = f.Int()
		case reflect.Float32, reflect.Float64:
			out[n] = f.Float()
		case reflect.Slice:
			if f.Type().Elem().Kind() == reflect.Uint8 {
				out[n] = append([]byte(nil), f.Bytes()...)
				continue
			}
			x := make([]float64, f.Len())
			for k := range x {
				x[k] = f.Index(k).Float()
			}
			out[n] = x
		}
	}
	return out
}'''
repo=sys.argv[2]
# what a hook passes through to: its name, its parameters by type, its results
SIG={'ReadValues':('getValuesFromHex',{'CharacteristicValues':'cv','CalibrationData':'cd'},''),
'Decode':('convertByteSliceToDatatype',{'CalibrationData':'cd','[]byte':'b','a2l.DataTypeEnum':'dte'},'float64,error'),
'Align':('getNextAlignedAddress',{'CalibrationData':'cd','uint32':'address','a2l.DataTypeEnum':'dte','a2l.RecordLayout':'rl'},'uint32'),
'Convert':('convDecToPhy',{'CalibrationData':'cd','float64':'dec','a2l.CompuMethod':'cm'},'float64,error'),
'Verbal':('calcTabVerb',{'CalibrationData':'cd','float64':'dec','a2l.CompuVTab':'t'},'string,error'),
'VerbalRange':('calcTabVerbRange',{'CalibrationData':'cd','float64':'dec','a2l.CompuVTabRange':'t'},'string,error'),
'Address':('convertStringToUint32Address',{'CalibrationData':'cd','string':'text'},'uint32,error'),
'Constant':('getSystemConstantValue',{'CalibrationData':'cd','string':'ident'},'string,error')}
# functions that are there already and do something else
ELSE=set("calcRatFunc calcTabNoIntp calcTabVerb calcTabVerbRange computeValues convDecToPhy convertByteSliceToDatatype convertStringToUint32Address getBytes getRecordLayout getReserved getSystemConstant getSystemConstantValue getValue readA2L readHex".split())
def split(params):
    """the types of a parameter or result list, names taken away"""
    parts=[p.strip() for p in params.split(',') if p.strip()]
    types=[];named=any(' ' in p for p in parts)
    for p in reversed(parts):
        if named and ' ' not in p: types.insert(0,types[0])
        else: types.insert(0,p.split(' ',1)[1].strip() if named else p)
    return types
def others(n):
    """calls of other functions that take and return the same types, the most similar name first"""
    old,want,res=SIG[n]
    found=[]
    for f in glob.glob(repo+'/*.go'):
        if f.endswith('_test.go') or f.endswith('verif_hooks.go'): continue
        text=open(f,errors='replace').read()
        for recv,name,params,one,many in re.findall(r'^func\s*(?:\(([^)]*)\))?\s*(\w+)\(([^)]*)\)\s*(?:([^\s({]+)|\(([^)]*)\))?\s*\{',text,re.M):
            if ','.join(split(one or many))!=res or name in ELSE and name!=old: continue
            args=[];ok=True;left=dict(want)
            types=split(params)
            for t in types:
                base=t.lstrip('*')
                if base not in left: ok=False; break
                v=left.pop(base)
                pointer=base[0].isupper() or base.startswith('a2l.') and base!='a2l.DataTypeEnum'
                args.append(('' if t[0]=='*' else '*')+v if pointer else v)
            call=name
            if ok and recv:
                r=recv.split()[-1].lstrip('*')
                if r not in left: ok=False
                else: call=left.pop(r)+'.'+name
            if not ok or [x for x in left if x!='CalibrationData']: continue
            found.append((difflib.SequenceMatcher(None,name.lower(),old.lower()).ratio(),f'{call}({", ".join(args)})'))
    return [c for r,c in sorted(found,reverse=True) if r>0.3]
def body(n,call):
    if n!='ReadValues': return '\treturn '+call
    return f'''	cv := NewCharacteristicValues(c, rl)
	{call}
	return verifFields(cv)'''
have=[]
with tempfile.TemporaryDirectory() as d:
    json.dump({"Replace":{repo+'/verif_hooks.go':d+'/h.go'}},open(d+'/o.json','w'))
    def builds(n):
        open(d+'/h.go','w').write(source([n],stub))
        return subprocess.run(['go','build','-tags','verif','-overlay',d+'/o.json','-o',os.devnull,'.'],cwd=repo,stdout=subprocess.DEVNULL,stderr=subprocess.DEVNULL).returncode==0
    for n in need:
        first=F[n]
        for b in [first[2]]+[body(n,c) for c in others(n)]:
            F[n]=(first[0],first[1],b)
            if builds(n): have.append(n); break
        else: F[n]=first
print(source(have or need,stub))
