package gen

import "strings"

// Kind of a parameter token.
type Kind int

const (
	KStr  Kind = iota // text in quotes
	KID               // identifier
	KU16              // unsigned 16 bit decimal
	KU32              // unsigned 32 bit decimal
	KI16              // signed 16 bit decimal
	KI32              // signed 32 bit decimal
	KF                // float
	KAddr             // address / mask text, kept as written
	KEnum             // enumeration value
	KRaw              // free token
)

// Param is one parameter of a keyword.
type Param struct {
	Field string
	Kind  Kind
	Enum  []string
}

// Key describes a keyword or a block of the A2L grammar and where its content ends up in the parsed
// structures (field names are matched ignoring case).
type Key struct {
	Kw     string
	Field  string // field of the enclosing structure
	Block  bool   // /begin KW ... /end KW
	Flag   bool   // keyword without parameters; the structure has a field "value"
	Direct bool   // the only parameter is stored in the field of the enclosing structure itself
	Rep    bool   // may be repeated; the field is a slice
	MapKey string // the field is a map keyed by this parameter
	Params []Param
	MinP   int    // number of parameters that must be written (-1: all)
	List   *Param // trailing list
	Rows   []Param
	Count  string // parameter that holds the number of rows ("" if rows are not counted)
	Text   string // trailing tokens are accumulated in this field, each preceded by a blank
	Raw    string // trailing raw tokens are kept in this list
	Last   bool   // must be written last but for IF_DATA
	Opts   []*Key
	Deflt  string // value of the field if the keyword is not written
}

var enums = map[string][]string{
	"datatype":  {"UBYTE", "SBYTE", "UWORD", "SWORD", "ULONG", "SLONG", "A_UINT64", "A_INT64", "FLOAT16_IEEE", "FLOAT32_IEEE", "FLOAT64_IEEE"},
	"datasize":  {"BYTE", "WORD", "LONG"},
	"addrtype":  {"PBYTE", "PWORD", "PLONG", "PLONGLONG", "DIRECT"},
	"byteorder": {"LITTLE_ENDIAN", "BIG_ENDIAN", "MSB_LAST", "MSB_FIRST", "MSB_FIRST_MSW_LAST", "MSB_LAST_MSW_FIRST"},
	"indexincr": {"INDEX_INCR", "INDEX_DECR"},
	"axisattr":  {"CURVE_AXIS", "COM_AXIS", "FIX_AXIS", "RES_AXIS", "STD_AXIS"},
	"memattr":   {"INTERN", "EXTERN"},
	"calacc":    {"CALIBRATION", "NO_CALIBRATION", "NOT_IN_MCD_SYSTEM", "OFFLINE_CALIBRATION"},
	"chartype":  {"ASCII", "CURVE", "MAP", "CUBOID", "CUBE_4", "CUBE_5", "VAL_BLK", "VALUE"},
	"unittype":  {"DERIVED", "EXTENDED_SI"},
	"conv":      {"IDENTICAL", "FORM", "LINEAR", "RAT_FUNC", "TAB_INTP", "TAB_NOINTP", "TAB_VERB"},
	"convtab":   {"TAB_INTP", "TAB_NOINTP"},
	"convvtab":  {"TAB_VERB"},
	"indexmode": {"ALTERNATE_CURVES", "ALTERNATE_WITH_X", "ALTERNATE_WITH_Y", "COLUMN_DIR", "ROW_DIR"},
	"layout":    {"ROW_DIR", "COLUMN_DIR"},
	"mode":      {"ABSOLUTE", "DIFFERENCE"},
	"prgtype":   {"CALIBRATION_VARIABLES", "CODE", "DATA", "EXCLUDE_FROM_FLASH", "OFFLINE_DATA", "RESERVED", "SERAM", "VARIABLES"},
	"prglayout": {"PRG_CODE", "PRG_DATA", "PRG_RESERVED"},
	"memtype":   {"EEPROM", "EPROM", "FLASH", "RAM", "ROM", "REGISTER", "NOT_IN_ECU"},
	"monotony":  {"MON_DECREASE", "MON_INCREASE", "STRICT_DECREASE", "STRICT_INCREASE", "MONOTONOUS", "STRICT_MON", "NOT_MON"},
	"encoding":  {"UTF8", "UTF16", "UTF32"},
	"tag":       {"NUMERIC"},
	"trigger":   {"ON_CHANGE", "ON_USER_REQUEST"},
}

// ps parses "name:id longIdentifier:str lower:f type:e.chartype".
func ps(s string) []Param {
	var out []Param
	for _, w := range strings.Fields(s) {
		f := strings.SplitN(w, ":", 2)
		p := Param{Field: f[0]}
		switch k := f[1]; {
		case k == "str":
			p.Kind = KStr
		case k == "id":
			p.Kind = KID
		case k == "u16":
			p.Kind = KU16
		case k == "u32":
			p.Kind = KU32
		case k == "i16":
			p.Kind = KI16
		case k == "i32":
			p.Kind = KI32
		case k == "f":
			p.Kind = KF
		case k == "addr":
			p.Kind = KAddr
		case k == "raw":
			p.Kind = KRaw
		case strings.HasPrefix(k, "e."):
			p.Kind, p.Enum = KEnum, enums[k[2:]]
			if p.Enum == nil {
				panic(k)
			}
		default:
			panic(w)
		}
		out = append(out, p)
	}
	return out
}

func camel(kw string) string {
	p := strings.Split(strings.ToLower(kw), "_")
	return strings.Join(p, "")
}

func inl(kw, params string) *Key { return &Key{Kw: kw, Field: camel(kw), Params: ps(params), MinP: -1} }
func flg(kw string) *Key         { return &Key{Kw: kw, Field: camel(kw), Flag: true, MinP: -1} }
func dir(kw, field, kind string) *Key {
	return &Key{Kw: kw, Field: field, Direct: true, Params: ps(field + ":" + kind), MinP: -1}
}
func blk(kw, params string, opts ...*Key) *Key {
	return &Key{Kw: kw, Field: camel(kw), Block: true, Params: ps(params), MinP: -1, Opts: opts}
}
func lst(kw, param string) *Key {
	k := blk(kw, "")
	k.List = &ps(param)[0]
	return k
}
func (k *Key) rep() *Key             { k.Rep = true; return k }
func (k *Key) as(f string) *Key      { k.Field = f; return k }
func (k *Key) list(p string) *Key    { k.List = &ps(p)[0]; return k }
func (k *Key) deflt(s string) *Key   { k.Deflt = s; return k }
func (k *Key) keyed(p string) *Key   { k.MapKey = p; return k }
func (k *Key) rows(c, p string) *Key { k.Count, k.Rows = c, ps(p); return k }

func keys(ks ...interface{}) []*Key {
	var out []*Key
	for _, k := range ks {
		switch v := k.(type) {
		case *Key:
			out = append(out, v)
		case []*Key:
			out = append(out, v...)
		}
	}
	return out
}

// ModKind is one kind of module-level object.
type ModKind struct {
	Key    *Key
	Field  string // field of the module
	ID     string // parameter that names the object; "" for singletons
	Group  string // property that owns the content
	Public bool   // reachable through the lookup by identifier
}

// The grammar.
var (
	HeaderKey   *Key
	Asap2Key    = inl("ASAP2_VERSION", "versionNo:u16 upgradeNo:u16").as("Asap2Version")
	A2mlVerKey  = inl("A2ML_VERSION", "VersionNo:u16 UpgradeNo:u16").as("A2mlVersion")
	ProjectKey  = &Key{Kw: "PROJECT", Block: true, Params: ps("Name:id longIdentifier:str"), MinP: -1}
	ModuleKey   = &Key{Kw: "MODULE", Block: true, Params: ps("Name:id longIdentifier:str"), MinP: -1}
	ModKinds    []*ModKind
	RecordKey   *Key
	CharKey     *Key
	ModParKey   *Key
	ModCommKey  *Key
	CompuMetKey *Key
)

// Axes lists the axis suffixes of record layouts.
var Axes = []string{"X", "Y", "Z", "4", "5"}

func init() {
	ifData := func() *Key {
		return (&Key{Kw: "IF_DATA", Field: "ifData", Block: true, Params: ps("name:id"), MinP: -1, Raw: "data"}).rep()
	}
	annotation := func() *Key {
		txt := &Key{Kw: "ANNOTATION_TEXT", Field: "annotationText", Block: true, MinP: -1, Text: "annotationText", Rep: true}
		return blk("ANNOTATION", "", inl("ANNOTATION_LABEL", "label:str"), inl("ANNOTATION_ORIGIN", "origin:str"), txt).rep()
	}
	byteOrder := func() *Key { return inl("BYTE_ORDER", "ByteOrder:e.byteorder") }
	deposit := func() *Key { return inl("DEPOSIT", "mode:e.mode") }
	extLimits := func() *Key { return inl("EXTENDED_LIMITS", "lowerLimit:f upperLimit:f") }
	format := func() *Key { return inl("FORMAT", "formatString:str") }
	monotony := func() *Key { return inl("MONOTONY", "monotony:e.monotony") }
	physUnit := func() *Key { return inl("PHYS_UNIT", "unit:str") }
	readOnly := func() *Key { return flg("READ_ONLY") }
	readWrite := func() *Key { return flg("READ_WRITE") }
	stepSize := func() *Key { return inl("STEP_SIZE", "stepSize:f") }
	calAcc := func() *Key { return dir("CALIBRATION_ACCESS", "calibrationAccess", "e.calacc") }
	display := func() *Key { return inl("DISPLAY_IDENTIFIER", "displayName:id") }
	ecuExt := func() *Key { return inl("ECU_ADDRESS_EXTENSION", "extension:i16") }
	funList := func() *Key { return lst("FUNCTION_LIST", "name:id") }
	modelLink := func() *Key { return inl("MODEL_LINK", "modelName:str") }
	refMem := func() *Key { return inl("REF_MEMORY_SEGMENT", "name:id") }
	symLink := func() *Key { return inl("SYMBOL_LINK", "symbolName:str offset:i32") }
	bitMask := func() *Key { return inl("BIT_MASK", "mask:addr") }
	discrete := func() *Key { return flg("DISCRETE") }
	encoding := func() *Key { return dir("ENCODING", "encoding", "e.encoding") }
	matrixDim := func() *Key {
		k := inl("MATRIX_DIM", "DimX:u16 DimY:u16 DimZ:u16 Dim4:u16 Dim5:u16")
		k.MinP = 1
		return k
	}
	maxRefresh := func() *Key { return inl("MAX_REFRESH", "scalingUnit:u16 rate:u32") }
	number := func() *Key { return inl("NUMBER", "number:u16") }
	addrType := func() *Key { return dir("ADDRESS_TYPE", "addressType", "e.addrtype") }
	layout := func() *Key { return inl("LAYOUT", "indexMode:e.indexmode") }
	errMask := func() *Key { return inl("ERROR_MASK", "mask:addr") }
	bitOp := func() *Key {
		return blk("BIT_OPERATION", "", inl("LEFT_SHIFT", "bitcount:u32"), inl("RIGHT_SHIFT", "bitcount:u32"), flg("SIGN_EXTEND"))
	}
	symType := func() *Key { return inl("SYMBOL_TYPE_LINK", "symbolName:str") }
	fixList := blk("FIX_AXIS_PAR_LIST", "").list("axisPtsValue:f").rep()
	axisDescr := func() *Key {
		return blk("AXIS_DESCR", "attribute:e.axisattr inputQuantity:id conversion:id maxAxisPoints:u16 lowerLimit:f upperLimit:f",
			annotation(), inl("AXIS_PTS_REF", "axisPoints:id"), byteOrder(), inl("CURVE_AXIS_REF", "curveAxis:id"), deposit(), extLimits(),
			inl("FIX_AXIS_PAR", "offset:i16 shift:i16 numberapo:u16"), inl("FIX_AXIS_PAR_DIST", "offset:i16 distance:i16 numberapo:u16"),
			fixList, format(), inl("MAX_GRAD", "maxGradient:f"), monotony(), physUnit(), readOnly(), stepSize()).rep()
	}
	defaultValue := func() *Key { return inl("DEFAULT_VALUE", "DisplayString:str") }
	refUnit := func() *Key { return inl("REF_UNIT", "unit:id") }

	HeaderKey = blk("HEADER", "comment:str", inl("PROJECT_NO", "projectNumber:id"), inl("VERSION", "versionIdentifier:str"))

	axisPts := blk("AXIS_PTS", "name:id longIdentifier:str address:addr inputQuantity:id depositIdent:id maxDiff:f conversion:id maxAxisPoints:u16 lowerLimit:f upperLimit:f",
		annotation(), byteOrder(), calAcc(), deposit(), display(), ecuExt(), extLimits(), format(), funList().rep(), flg("GUARD_RAILS"), ifData(),
		modelLink(), monotony(), physUnit(), readOnly(), refMem(), stepSize(), symLink())
	CharKey = blk("CHARACTERISTIC", "Name:id LongIdentifier:str Type:e.chartype Address:addr Deposit:id maxDiff:f conversion:id lowerLimit:f upperLimit:f",
		annotation(), axisDescr(), bitMask(), byteOrder(), calAcc(), inl("COMPARISON_QUANTITY", "name:id"),
		blk("DEPENDENT_CHARACTERISTIC", "formula:str").list("characteristic:id").rep(), discrete(), display(), encoding(), ecuExt(), extLimits(), format(),
		funList().rep(), flg("GUARD_RAILS"), ifData(), lst("MAP_LIST", "name:id").rep(), matrixDim(), maxRefresh(), modelLink(), number(), physUnit(),
		readOnly(), refMem(), stepSize(), symLink(), blk("VIRTUAL_CHARACTERISTIC", "formula:str").list("characteristic:id").rep())
	blob := blk("BLOB", "name:id longIdentifier:str address:addr size:u32", addrType().deflt("DIRECT"), annotation(), calAcc(), display(), ecuExt(),
		ifData(), maxRefresh(), modelLink(), symLink())
	instance := blk("INSTANCE", "name:id LongIdentifier:str typeDefName:id address:addr", addrType(), annotation(), calAcc(), display(), ecuExt(), ifData(),
		matrixDim(), maxRefresh(), modelLink(),
		blk("OVERWRITE", "name:id axisNumer:u16", dir("CONVERSION", "conversion", "id"), extLimits(), format(), dir("INPUT_QUANTITY", "inputQuantity", "id"),
			inl("LIMITS", "lowerLimit:f upperLimit:f"), monotony(), physUnit()), readWrite(), symLink())
	tdAxis := blk("TYPEDEF_AXIS", "name:id LongIdentifier:str inputQuantity:id recordLayout:id maxDiff:f conversion:id maxAxisPoints:u16 lowerLimit:f upperLimit:f",
		byteOrder(), deposit(), extLimits(), format(), monotony(), physUnit(), stepSize())
	tdBlob := blk("TYPEDEF_BLOB", "name:id longIdentifier:str size:u32", addrType())
	tdChar := blk("TYPEDEF_CHARACTERISTIC", "name:id LongIdentifier:str Type:e.chartype recordLayout:id maxDiff:f conversion:id lowerLimit:f upperLimit:f",
		axisDescr(), bitMask(), byteOrder(), discrete(), encoding(), extLimits(), format(), matrixDim(), number(), physUnit(), stepSize())
	tdStruct := blk("TYPEDEF_STRUCTURE", "name:id longIdentifier:str size:u32", addrType(), flg("CONSISTENT_EXCHANGE"),
		blk("STRUCTURE_COMPONENT", "name:id typeDefName:id addressOffset:addr", addrType(), layout(), matrixDim(), symType()).rep(), symType())

	measOpts := func() []*Key {
		return []*Key{bitMask(), bitOp(), byteOrder(), discrete(), errMask(), format(), layout(), matrixDim(), physUnit()}
	}
	measParams := "name:id longIdentifier:str datatype:e.datatype conversion:id resolution:u16 accuracy:f lowerLimit:f upperLimit:f"
	meas := blk("MEASUREMENT", measParams, keys(measOpts(), annotation(), inl("ARRAY_SIZE", "number:u16"), display(), inl("ECU_ADDRESS", "address:addr"),
		ecuExt(), funList(), ifData(), maxRefresh(), modelLink(), readWrite(), refMem(), symLink(), lst("VIRTUAL", "measuringChannel:id"))...)
	tdMeas := blk("TYPEDEF_MEASUREMENT", measParams, measOpts()...)
	ids := func(kw string) *Key { return lst(kw, "identifier:id") }
	function := blk("FUNCTION", "name:id longIdentifier:str", annotation(), blk("AR_COMPONENT", "componentType:str", inl("AR_PROTOTYPE_OF", "name:id")),
		ids("DEF_CHARACTERISTIC"), inl("FUNCTION_VERSION", "versionIdentifier:str"), ifData(), ids("IN_MEASUREMENT"), ids("LOC_MEASUREMENT"),
		ids("OUT_MEASUREMENT"), ids("REF_CHARACTERISTIC"), ids("SUB_FUNCTION"))
	group := blk("GROUP", "groupName:id groupLongIdentifier:str", annotation(), funList(), ifData(), ids("REF_CHARACTERISTIC"), ids("REF_MEASUREMENT"),
		flg("ROOT"), ids("SUB_GROUP"))
	frameMeas := &Key{Kw: "FRAME_MEASUREMENT", Field: "frameMeasurement", MinP: -1, List: &ps("identifier:id")[0], Last: true}
	frame := blk("FRAME", "name:id longIdentifier:str scalingUnit:u16 rate:u32", frameMeas, ifData())
	transformer := blk("TRANSFORMER", "name:id version:str executable32:str executable64:str timeOut:u32 trigger:e.trigger inverseTransformer:id",
		ids("TRANSFORMER_IN_OBJECTS"), ids("TRANSFORMER_OUT_OBJECTS"))
	userRights := blk("USER_RIGHTS", "userLevelId:id", readOnly(), ids("REF_GROUP").rep())
	varForb := blk("VAR_FORBIDDEN_COMB", "").rows("", "criterionName:id criterionValue:id").rep()
	varSep := inl("VAR_SEPARATOR", "separator:str")
	variant := blk("VARIANT_CODING", "", blk("VAR_CHARACTERISTIC", "name:id", lst("VAR_ADDRESS", "address:addr").rep()).list("identCriterionName:id").rep(),
		blk("VAR_CRITERION", "name:id longIdentifier:str", inl("VAR_MEASUREMENT", "name:id"), inl("VAR_SELECTION_CHARACTERISTIC", "name:id")).list("value:id").rep(),
		varForb, inl("VAR_NAMING", "tag:e.tag"), varSep)

	CompuMetKey = blk("COMPU_METHOD", "Name:id LongIdentifier:str ConversionType:e.conv Format:str Unit:str", inl("COEFFS", "A:f B:f C:f D:f E:f F:f"),
		inl("COEFFS_LINEAR", "A:f B:f"), inl("COMPU_TAB_REF", "ConversionTable:id"),
		blk("FORMULA", "", inl("FORMULA_INV", "gx:str")).list("fx:str").rep(), refUnit(), inl("STATUS_STRING_REF", "ConversionTable:id"))
	compuTab := blk("COMPU_TAB", "Name:id longIdentifier:str ConversionType:e.convtab NumberValuePairs:u16", defaultValue(), inl("DEFAULT_VALUE_NUMERIC", "DisplayValue:f")).
		rows("NumberValuePairs", "InVal:f OutVal:f")
	compuVtab := blk("COMPU_VTAB", "Name:id LongIdentifier:str ConversionType:e.convvtab NumberValuePairs:u16", defaultValue()).rows("NumberValuePairs", "InVal:f OutVal:str")
	compuVtabR := blk("COMPU_VTAB_RANGE", "Name:id LongIdentifier:str NumberValueTriples:u16", defaultValue()).rows("NumberValueTriples", "InValMin:f InValMax:f OutVal:str")
	unit := blk("UNIT", "name:id longIdentifier:str display:str Type:e.unittype", refUnit(),
		inl("SI_EXPONENTS", "length:i16 mass:i16 time:i16 electricCurrent:i16 temperature:i16 amountOfSubstance:i16 luminousIntensity:i16"),
		inl("UNIT_CONVERSION", "gradient:f offset:f"))

	aligns := func() []*Key {
		var out []*Key
		for _, n := range []string{"BYTE", "WORD", "LONG", "INT64", "FLOAT16_IEEE", "FLOAT32_IEEE", "FLOAT64_IEEE"} {
			out = append(out, inl("ALIGNMENT_"+n, "AlignmentBorder:u16"))
		}
		return out
	}
	var comps []*Key
	pd := "Position:u16 Datatype:e.datatype"
	for _, a := range Axes {
		comps = append(comps, inl("AXIS_PTS_"+a, pd+" IndexIncr:e.indexincr Addressing:e.addrtype"), inl("DIST_OP_"+a, pd), inl("SHIFT_OP_"+a, pd), inl("OFFSET_"+a, pd),
			inl("NO_AXIS_PTS_"+a, pd), inl("RIP_ADDR_"+a, pd), inl("SRC_ADDR_"+a, pd), inl("FIX_NO_AXIS_PTS_"+a, "NumberOfAxisPoints:u16"))
	}
	comps = append(comps, inl("RIP_ADDR_W", pd), inl("AXIS_RESCALE_X", "Position:u16 Datatype:e.datatype MaxNumberOfRescalePairs:u16 IndexIncr:e.indexincr Adressing:e.addrtype"),
		inl("NO_RESCALE_X", pd), inl("IDENTIFICATION", pd), inl("FNC_VALUES", pd+" IndexMode:e.indexmode Addresstype:e.addrtype"),
		inl("RESERVED", "Position:u16 DataSize:e.datasize"), flg("STATIC_RECORD_LAYOUT"), flg("STATIC_ADDRESS_OFFSETS"))
	RecordKey = blk("RECORD_LAYOUT", "Name:id", keys(comps, aligns())...)

	ModCommKey = blk("MOD_COMMON", "comment:str", keys(aligns(), byteOrder(), inl("DATA_SIZE", "size:u16"), deposit())...)
	memLayout := blk("MEMORY_LAYOUT", "prgType:e.prglayout address:addr size:addr", ifData()).rep()
	memLayout.Params = append(memLayout.Params, ps("offset#0:i32 offset#1:i32 offset#2:i32 offset#3:i32 offset#4:i32")...)
	memSeg := blk("MEMORY_SEGMENT", "name:id longIdentifier:str prgType:e.prgtype memoryType:e.memtype attribute:e.memattr address:addr size:addr", ifData()).rep()
	memSeg.Params = append(memSeg.Params, ps("offset#0:addr offset#1:addr offset#2:addr offset#3:addr offset#4:addr")...)
	ModParKey = blk("MOD_PAR", "comment:str", inl("ADDR_EPK", "address:addr").rep(),
		blk("CALIBRATION_METHOD", "method:str version:u32", lst("CALIBRATION_HANDLE", "handle:addr").rep()).rep(),
		inl("CPU_TYPE", "cpu:str"), inl("CUSTOMER", "customer:str"), inl("CUSTOMER_NO", "number:str"), inl("ECU", "controlUnit:str"),
		inl("ECU_CALIBRATION_OFFSET", "offset:addr"), inl("EPK", "identifier:str"), memLayout, memSeg, inl("NO_OF_INTERFACES", "num:u16"),
		inl("PHONE_NO", "telnum:str"), inl("SUPPLIER", "manufacturer:str"),
		inl("SYSTEM_CONSTANT", "Name:str Value:str").as("SystemConstants").keyed("Name"), inl("USER", "userName:str"), inl("VERSION", "versionIdentifier:str"))
	for _, o := range ModParKey.Opts {
		if o.Kw == "CALIBRATION_METHOD" {
			o.Opts[0].Opts = []*Key{inl("CALIBRATION_HANDLE_TEXT", "text:str")}
		}
	}
	a2ml := &Key{Kw: "A2ML", Field: "a2ml", Block: true, MinP: -1, Text: "formatSpecification"}
	modIf := ifData()
	modIf.Rep = false

	add := func(k *Key, field, id, group string, public bool) {
		ModKinds = append(ModKinds, &ModKind{Key: k, Field: field, ID: id, Group: group, Public: public})
	}
	add(CharKey, "Characteristics", "Name", "A02", true)
	add(axisPts, "AxisPts", "name", "A02", true)
	add(blob, "blobs", "name", "A02", false)
	add(instance, "instances", "name", "A02", false)
	add(tdAxis, "typeDefAxis", "name", "A02", false)
	add(tdBlob, "typeDefBlobs", "name", "A02", false)
	add(tdChar, "typeDefCharacteristics", "name", "A02", false)
	add(tdStruct, "typeDefStructures", "name", "A02", false)
	add(meas, "Measurements", "name", "A03", true)
	add(tdMeas, "typeDefMeasurements", "name", "A03", false)
	add(function, "Functions", "name", "A03", true)
	add(group, "Groups", "groupName", "A03", true)
	add(transformer, "transformers", "name", "A03", false)
	add(userRights, "userRights", "userLevelId", "A03", false)
	add(modIf, "ifData", "name", "A03", false)
	add(CompuMetKey, "CompuMethods", "Name", "A04", true)
	add(compuTab, "CompuTabs", "Name", "A04", true)
	add(compuVtab, "CompuVTabs", "Name", "A04", true)
	add(compuVtabR, "CompuVTabRanges", "Name", "A04", true)
	add(unit, "Units", "name", "A04", true)
	add(RecordKey, "RecordLayouts", "Name", "A05", true)
	add(frame, "frame", "", "A03", false)
	add(variant, "variantCoding", "", "A03", false)
	add(a2ml, "a2ml", "", "A06", false)
	add(ModCommKey, "ModCommon", "", "A06", false)
	add(ModParKey, "ModPar", "", "A06", true)
}

// KindOf finds a module-level kind by keyword.
func KindOf(kw string) *ModKind {
	for _, m := range ModKinds {
		if m.Key.Kw == kw {
			return m
		}
	}
	return nil
}
