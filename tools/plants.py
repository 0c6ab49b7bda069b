"""The planted bugs, written from the properties and the code. tools/plant.py turns them into seeded/."""

HEX = '''
func rec(typ byte, addr uint16, data ...byte) string {
	b := append([]byte{byte(len(data)), byte(addr >> 8), byte(addr), typ}, data...)
	var s byte
	for _, x := range b {
		s += x
	}
	return fmt.Sprintf(":%X%02X", b, byte(-s))
}

func write(t *testing.T, name string, lines ...string) string {
	p := filepath.Join(t.TempDir(), name)
	if err := os.WriteFile(p, []byte(strings.Join(lines, "\\n")+"\\n"), 0o644); err != nil {
		t.Fatal(err)
	}
	return p
}
'''
SREC = '''
func rec(addr uint32, data ...byte) string {
	b := append([]byte{byte(len(data) + 5), byte(addr >> 24), byte(addr >> 16), byte(addr >> 8), byte(addr)}, data...)
	var s byte
	for _, x := range b {
		s += x
	}
	return fmt.Sprintf("S3%X%02X", b, ^s)
}

func write(t *testing.T, name string, lines ...string) string {
	p := filepath.Join(t.TempDir(), name)
	if err := os.WriteFile(p, []byte(strings.Join(lines, "\\n")+"\\n"), 0o644); err != nil {
		t.Fatal(err)
	}
	return p
}
'''
A2L = '''
func parse(t *testing.T, text string) (A2L, error) {
	p := filepath.Join(t.TempDir(), "x.a2l")
	if err := os.WriteFile(p, []byte(text), 0o644); err != nil {
		t.Fatal(err)
	}
	return ParseFromFile(p)
}

func project(modules ...string) string {
	s := "ASAP2_VERSION 1 71\\n/begin PROJECT p \\"\\"\\n"
	for i, m := range modules {
		s += fmt.Sprintf("/begin MODULE m%d \\"\\"\\n%s\\n/end MODULE\\n", i, m)
	}
	return s + "/end PROJECT\\n"
}
'''
def go(pkg, imports, helper, body):
    im = ''.join('\t"%s"\n' % i for i in sorted(set(imports + (['fmt', 'os', 'path/filepath', 'testing'] + (['strings'] if helper in (HEX, SREC) else []) if helper else ['testing']))))
    return 'package %s\n\nimport (\n%s)\n%s\nfunc TestZZDemo(t *testing.T) {\n%s\n}\n' % (pkg, im, helper, body.strip('\n'))

PLANTS = [
dict(id='h01-lower-b6', property='H01', pkg='ihex32',
  needs='a lower-case file that holds the byte b6 (upper case is read correctly)',
  breaks='a well-formed Intel-HEX file is rejected because the digit pair b6 is read as another value',
  edits=[('ihex32/hex.go', '"b6": byte(182)', '"b6": byte(186)')],
  demo=go('ihex32', [], HEX, '''
	p := write(t, "x.hex", strings.ToLower(rec(0, 0x10, 0xb6, 1)), rec(1, 0))
	h, err := ParseFromFile(p)
	if err != nil || h[0x10] != 0xb6 {
		t.Fatal(h, err)
	}''')),
dict(id='h02-tailsum', property='H02', pkg='ihex32',
  needs='a damaged record among the last len(records) % numProc records of the file',
  breaks='the checksums of the remainder records are not validated: a damaged file loads with a wrong byte',
  edits=[('ihex32/hex.go', '''			if i+1 == numProc {
				//integer divisions might round up or down, so we make sure that we get the "real" end here
				end = len(recs)
			}
			go validateChecksumsRoutine(''', '''			go validateChecksumsRoutine(''')],
  demo=go('ihex32', [], HEX, '''
	var lines []string
	for i := 0; i < 2*numProc; i++ {
		lines = append(lines, rec(0, uint16(i*16), byte(i)))
	}
	lines = append(lines, strings.Replace(rec(0, 0x4000, 0x11), "11", "12", 1), "")
	if h, err := ParseFromFile(write(t, "x.hex", lines...)); err == nil {
		t.Fatal("damaged file loaded", len(h))
	}''')),
dict(id='h03-shared-recs', property='H03', pkg='ihex32',
  needs='two images loaded at the same time in one process',
  breaks='the record buffer is kept between loads, so concurrent loads work on one another\'s records',
  edits=[('ihex32/hex.go', '	recs := make([]*record, 0, 200000)\n', '	recs := recordBuffer[:0]\n'),
         ('ihex32/hex.go', '	validateChecksums = true\n', '	validateChecksums = true\n	//recordBuffer is reused by consecutive files to spare the allocation.\n	recordBuffer = make([]*record, 0, 200000)\n')],
  demo=go('ihex32', ['sync'], HEX, '''
	const n = 4
	var paths [n]string
	for k := 0; k < n; k++ {
		var lines []string
		for i := 0; i < 3000; i++ {
			lines = append(lines, rec(0, uint16(i*16), byte(k), byte(i)))
		}
		paths[k] = write(t, fmt.Sprint(k, ".hex"), lines...)
	}
	for round := 0; round < 10; round++ {
		var wg sync.WaitGroup
		for k := 0; k < n; k++ {
			wg.Add(1)
			go func(k int) {
				defer wg.Done()
				h, err := ParseFromFile(paths[k])
				if err != nil || len(h) != 6000 {
					t.Error(k, len(h), err)
					return
				}
				for i := 0; i < 3000; i++ {
					if h[uint32(i*16)] != byte(k) {
						t.Error("foreign byte in", k)
						return
					}
				}
			}(k)
		}
		wg.Wait()
	}''')),
dict(id='h04-directory', property='H04', pkg='srec19',
  needs='a path that exists but cannot be read, such as a directory',
  breaks='an unreadable path loads as an empty image instead of an error',
  edits=[('srec19/hex.go', '''	if err != nil {
		err = errors.New("could not read file")
		log.Err(err).Str("path", filepath)
	}
	text := string(bytesString)
	return text, err
''', '''	if os.IsNotExist(err) {
		err = errors.New("could not read file")
		log.Err(err).Str("path", filepath)
		return "", err
	}
	text := string(bytesString)
	return text, nil
''')],
  demo=go('srec19', [], '', '''
	if h, err := ParseFromFile(t.TempDir()); err == nil {
		t.Fatal("a directory was loaded", h)
	}''')),
dict(id='s01-byte80', property='S01', pkg='srec19',
  needs='a record with more than 127 data bytes',
  breaks='the index of a byte in its record is kept in a signed byte, so bytes behind the 128th land at wrong addresses',
  edits=[('srec19/record.go', '		lineAddress = lineAddress + uint32(i)\n', '		lineAddress = lineAddress + uint32(int8(i))\n')],
  demo=go('srec19', [], SREC, '''
	d := make([]byte, 140)
	for i := range d {
		d[i] = byte(i)
	}
	h, err := ParseFromFile(write(t, "x.s19", rec(0x1000, d...)))
	if err != nil || len(h) != 140 || h[0x1000+139] != 139 {
		t.Fatal(len(h), err)
	}''')),
dict(id='s02-same-value', property='S02', pkg='srec19',
  needs='two records that define the same address with the same value',
  breaks='an address that is defined twice is accepted if both definitions agree',
  edits=[('srec19/hex.go', '				if exists {\n', '				if exists && val != data.value {\n')],
  demo=go('srec19', [], SREC, '''
	if h, err := ParseFromFile(write(t, "x.s19", rec(0x1000, 1, 2, 3), rec(0x1002, 3, 4))); err == nil {
		t.Fatal("ambiguous file loaded", h)
	}''')),
dict(id='a01-empty-vtab', property='A01', pkg='a2l',
  needs='a one-module file with a COMPU_VTAB of zero rows',
  breaks='verbal tables without rows are missing from the parsed module',
  edits=[('a2l/module.go', '''		for elem := range cCompuVtab {
			myModule.CompuVTabs[elem.Name] = elem
''', '''		for elem := range cCompuVtab {
			if len(elem.InVal) == 0 {
				continue
			}
			myModule.CompuVTabs[elem.Name] = elem
''')],
  demo=go('a2l', [], A2L, '''
	a, err := parse(t, project("/begin COMPU_VTAB vt \\"\\" TAB_VERB 0 DEFAULT_VALUE \\"x\\" /end COMPU_VTAB"))
	if err != nil {
		t.Fatal(err)
	}
	if _, ok := a.Project.Modules[0].CompuVTabs["vt"]; !ok {
		t.Fatal("table lost")
	}''')),
dict(id='a02-shared-list', property='A02', pkg='a2l',
  needs='two DEPENDENT_CHARACTERISTIC blocks in one file',
  breaks='the identifier lists of all DEPENDENT_CHARACTERISTIC blocks share one buffer, so later blocks overwrite earlier ones',
  edits=[('a2l/dependent_characteristic.go', '	dc := DependentCharacteristic{}\n	var err error\n', '	dc := DependentCharacteristic{}\n	dc.characteristic = dependentBuffer[:0]\n	var err error\n'),
         ('a2l/dependent_characteristic.go', 'func parseDependentCharacteristic(', '//dependentBuffer spares the allocation for the usual short lists.\nvar dependentBuffer = make([]string, 0, 8)\n\nfunc parseDependentCharacteristic(')],
  demo=go('a2l', [], A2L, '''
	c := "/begin CHARACTERISTIC c%d \\"\\" VALUE 0x10 rl 0 NO_COMPU_METHOD 0 1 /begin DEPENDENT_CHARACTERISTIC \\"X1\\" %s /end DEPENDENT_CHARACTERISTIC /end CHARACTERISTIC\\n"
	a, err := parse(t, project(fmt.Sprintf(c, 1, "a b")+fmt.Sprintf(c, 2, "d e")))
	if err != nil {
		t.Fatal(err)
	}
	m := a.Project.Modules[0].Characteristics
	if fmt.Sprint(m["c1"].dependentCharacteristic[0].characteristic, m["c2"].dependentCharacteristic[0].characteristic) != "[a b] [d e]" {
		t.Fatal(m["c1"].dependentCharacteristic, m["c2"].dependentCharacteristic)
	}''')),
dict(id='a03-dedupe', property='A03', pkg='a2l',
  needs='a LOC_MEASUREMENT list that names one identifier twice in a row',
  breaks='repeated members of the list are dropped',
  edits=[('a2l/loc_measurement.go', '''			lm.identifier = append(lm.identifier, tok.current())
''', '''			if n := len(lm.identifier); n == 0 || lm.identifier[n-1] != tok.current() {
				lm.identifier = append(lm.identifier, tok.current())
			}
''')],
  demo=go('a2l', [], A2L, '''
	a, err := parse(t, project("/begin FUNCTION f \\"\\" /begin LOC_MEASUREMENT a a b /end LOC_MEASUREMENT /end FUNCTION"))
	if err != nil {
		t.Fatal(err)
	}
	if got := fmt.Sprint(a.Project.Modules[0].Functions["f"].locMeasurement.identifier); got != "[a a b]" {
		t.Fatal(got)
	}''')),
dict(id='a04-float32', property='A04', pkg='a2l',
  needs='an upper limit in a COMPU_VTAB_RANGE that single precision cannot represent',
  breaks='upper limits of range tables are rounded to single precision',
  edits=[('a2l/compu_vtab_range.go', '''				tok.next()
				buf, err = strconv.ParseFloat(tok.current(), 64)
''', '''				tok.next()
				buf, err = strconv.ParseFloat(tok.current(), 32)
''')],
  demo=go('a2l', [], A2L, '''
	a, err := parse(t, project("/begin COMPU_VTAB_RANGE r \\"\\" 1 0 16777217 \\"x\\" /end COMPU_VTAB_RANGE"))
	if err != nil {
		t.Fatal(err)
	}
	if v := a.Project.Modules[0].CompuVTabRanges["r"].InValMax[0]; v != 16777217 {
		t.Fatal(v)
	}''')),
dict(id='a05-index-z', property='A05', pkg='a2l',
  needs='a record layout with AXIS_PTS_Z in decreasing index order',
  breaks='the index order of Z axis points is always reported as increasing',
  edits=[('a2l/axis_pts_z.go', '''			apZ.IndexIncr, err = parseIndexOrderEnum(tok)
			if err != nil {''', '''			_, err = parseIndexOrderEnum(tok)
			apZ.IndexIncr = indexIncr
			if err != nil {''')],
  demo=go('a2l', [], A2L, '''
	a, err := parse(t, project("/begin RECORD_LAYOUT r AXIS_PTS_Z 3 UBYTE INDEX_DECR DIRECT /end RECORD_LAYOUT"))
	if err != nil {
		t.Fatal(err)
	}
	if a.Project.Modules[0].RecordLayouts["r"].AxisPtsZ.IndexIncr != indexDecr {
		t.Fatal("index order lost")
	}''')),
dict(id='a06-last-epk', property='A06', pkg='a2l',
  needs='a MOD_PAR with two ADDR_EPK entries',
  breaks='only the last EPK address is kept',
  edits=[('a2l/mod_par.go', '			mp.addrEpk = append(mp.addrEpk, buf)\n', '			mp.addrEpk = []addrEpk{buf}\n')],
  demo=go('a2l', [], A2L, '''
	a, err := parse(t, project("/begin MOD_PAR \\"\\" ADDR_EPK 0x10 ADDR_EPK 0x20 /end MOD_PAR"))
	if err != nil {
		t.Fatal(err)
	}
	if n := len(a.Project.Modules[0].ModPar.addrEpk); n != 2 {
		t.Fatal(n)
	}''')),
dict(id='a07-begin-linebreak', property='A07', pkg='a2l',
  needs='a line break between /begin or /end and the keyword',
  breaks='a file with a line break behind /begin is rejected',
  edits=[('a2l/token_generator.go', '''		twoWordedToken := t
		t, err = moveToNextRawValue(currentOuterIndex, currentInnerIndex, str)
		if err != nil {
			return emptyToken, err
		}
''', '''		twoWordedToken := t
		if *currentInnerIndex+1 >= len(str[*currentOuterIndex]) {
			err = errors.New("no keyword after " + t)
			return emptyToken, err
		}
		*currentInnerIndex++
		t = str[*currentOuterIndex][*currentInnerIndex]
''')],
  demo=go('a2l', [], A2L, '''
	if _, err := parse(t, project("/begin\\n  UNIT u \\"\\" \\"m\\" DERIVED\\n/end UNIT")); err != nil {
		t.Fatal(err)
	}''')),
dict(id='a08-short-file', property='A08', pkg='a2l',
  needs='a file with fewer lines than twice the number of CPUs whose last line is not ended by a line break',
  breaks='the last line of a short file is lost on machines with many CPUs, which then reject a file that others accept',
  edits=[('a2l/token_generator.go', """		start := (len(lines) / numProc) * i
		end := start + (len(lines) / numProc)
		if i+1 == numProc {
""", """		chunk := len(lines) / numProc
		if chunk == 0 {
			chunk = 1
		}
		start := chunk * i
		end := start + chunk
		if end >= len(lines) && i+1 < numProc {
			break
		}
		if i+1 == numProc {
""")],
  demo=go('a2l', [], A2L, '''
	txt := "ASAP2_VERSION 1 71\\n/begin PROJECT p \\"\\"\\n/begin MODULE m \\"\\"\\n/end MODULE\\n/end PROJECT"
	defer func(n int) { numProc = n }(numProc)
	for _, n := range []int{2, 4, 6, 8, 16} {
		numProc = n
		if _, err := parse(t, txt); err != nil {
			t.Fatal("rejected with", n, "routines:", err)
		}
	}''')),
dict(id='a09-position-wrap', property='A09', pkg='a2l',
  needs='a NO_AXIS_PTS_5 position beyond 65535',
  breaks='an out-of-range position is silently reduced modulo 65536',
  edits=[('a2l/no_axis_pts_5.go', 'strconv.ParseUint(tok.current(), 10, 16)', 'strconv.ParseUint(tok.current(), 10, 64)')],
  demo=go('a2l', [], A2L, '''
	if _, err := parse(t, project("/begin RECORD_LAYOUT r NO_AXIS_PTS_5 65537 UBYTE /end RECORD_LAYOUT")); err == nil {
		t.Fatal("out-of-range position accepted")
	}''')),
dict(id='a09-project-keyword', property='A09', pkg='a2l',
  needs='a header whose PROJECT_NO has a keyword in the place of the number',
  breaks='a keyword that stands where the project number belongs is taken for the number',
  edits=[('a2l/project_no.go', '''	} else if isKeyword(tok.current()) {
		err = errors.New("unexpected token " + tok.current())
		log.Err(err).Msg("projectNo could not be parsed")
	} else if !pn.projectNumberSet {''', '''	} else if !pn.projectNumberSet {''')],
  demo=go('a2l', [], A2L, '''
	if _, err := parse(t, "ASAP2_VERSION 1 71 /begin PROJECT p \\"\\" /begin HEADER \\"h\\" PROJECT_NO COEFFS /end HEADER /begin MODULE m \\"\\" /end MODULE /end PROJECT"); err == nil {
		t.Fatal("keyword accepted as project number")
	}''')),
dict(id='a10-endless-list', property='A10', pkg='a2l',
  needs='a file with two modules that ends inside a SUB_GROUP list',
  breaks='the list parser does not stop at the end of the file and collects memory forever',
  edits=[('a2l/sub_group.go', '''		if tok.current() == emptyToken {
			err = errors.New("unexpected end of file")
			log.Err(err).Msg("subGroup could not be parsed")
			break forLoop
		} else if tok.current() == endSubGroupToken {''', '''		if tok.current() == endSubGroupToken {''')],
  demo=go('a2l', ['time'], A2L, '''
	done := make(chan bool)
	go func() {
		parse(t, "ASAP2_VERSION 1 71 /begin PROJECT p \\"\\" /begin MODULE a \\"\\" /end MODULE /begin MODULE b \\"\\" /begin GROUP g \\"\\" /begin SUB_GROUP x")
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(3 * time.Second):
		fmt.Println("parser does not return")
		os.Exit(1)
	}''')),
dict(id='a11-transformer-key', property='A11', pkg='a2l',
  needs='a file with several modules, one of which has a TRANSFORMER',
  breaks='transformers of multi-module files are filed under their version instead of their name',
  edits=[('a2l/module.go', 'myModule.transformers[bufTransformer.name] = bufTransformer', 'myModule.transformers[bufTransformer.version] = bufTransformer')],
  demo=go('a2l', [], A2L, '''
	a, err := parse(t, project("", "/begin TRANSFORMER tr \\"v1\\" \\"a.dll\\" \\"b.dll\\" 10 ON_CHANGE NO_INVERSE_TRANSFORMER /end TRANSFORMER"))
	if err != nil {
		t.Fatal(err)
	}
	if _, ok := a.Project.Modules[1].transformers["tr"]; !ok {
		t.Fatal("transformer not found under its name")
	}''')),
dict(id='a12-path-cache', property='A12', pkg='a2l',
  needs='one path that is parsed, rewritten with a text of the same length and parsed again in one process',
  breaks='the second parse of a path returns the text of the first one if the file size did not change',
  edits=[('a2l/a2l.go', '''	bytesString, err := os.ReadFile(filepath)
	if err != nil {
		return "", err
	}
	cleanedStr := cleanBytesString(bytesString)
	return cleanedStr, nil
''', '''	info, err := os.Stat(filepath)
	if err != nil {
		return "", err
	}
	if filepath == lastPath && info.Size() == lastSize {
		return lastText, nil
	}
	bytesString, err := os.ReadFile(filepath)
	if err != nil {
		return "", err
	}
	cleanedStr := cleanBytesString(bytesString)
	lastPath, lastSize, lastText = filepath, info.Size(), cleanedStr
	return cleanedStr, nil
'''), ('a2l/a2l.go', '	numProc = runtime.NumCPU() * 2\n', '	numProc = runtime.NumCPU() * 2\n	//the text of the last file is kept because calibration tools reload the same description again and again.\n	lastPath string\n	lastSize int64\n	lastText string\n')],
  demo=go('a2l', [], A2L, '''
	p := filepath.Join(t.TempDir(), "x.a2l")
	for _, n := range []string{"u1", "u2"} {
		if err := os.WriteFile(p, []byte(project("/begin UNIT "+n+" \\"\\" \\"m\\" DERIVED /end UNIT")), 0o644); err != nil {
			t.Fatal(err)
		}
		a, err := ParseFromFile(p)
		if err != nil {
			t.Fatal(err)
		}
		if _, ok := a.Project.Modules[0].Units[n]; !ok {
			t.Fatal("content of the file before")
		}
	}''')),
]
ROOT_A2L = '''
func write(t *testing.T, name, text string) string {
	p := filepath.Join(t.TempDir(), name)
	if err := os.WriteFile(p, []byte(text), 0o644); err != nil {
		t.Fatal(err)
	}
	return p
}

func project(modules ...string) string {
	s := "ASAP2_VERSION 1 71\\n/begin PROJECT p \\"\\"\\n"
	for i, m := range modules {
		s += fmt.Sprintf("/begin MODULE m%d \\"\\"\\n%s\\n/end MODULE\\n", i, m)
	}
	return s + "/end PROJECT\\n"
}
'''
PLANTS += [
dict(id='c01-both-fail', property='C01', pkg='',
  needs='both files unreadable or damaged at once',
  breaks='reading deadlocks when both parsers report an error',
  edits=[('calib_data.go', 'make(chan error, 2)', 'make(chan error, 1)')],
  demo=go('calibrationReader', ['time'], ROOT_A2L, '''
	t.Chdir(t.TempDir())
	a, h := write(t, "x.a2l", "/begin"), write(t, "x.hex", "nonsense")
	done := make(chan error, 1)
	go func() {
		_, err := ReadCalibration(a, h)
		done <- err
	}()
	select {
	case err := <-done:
		if err == nil {
			t.Fatal("success")
		}
	case <-time.After(20 * time.Second):
		t.Fatal("no answer")
	}''')),
dict(id='c02-fallback', property='C02', pkg='',
  needs='a file named *.hex that holds S-records',
  breaks='a *.hex file that is no Intel-HEX file is loaded as S-record instead of being rejected',
  edits=[('calib_data.go', '''		h, err := ihex32.ParseFromFile(hexFilePath)
''', '''		h, err := ihex32.ParseFromFile(hexFilePath)
		if err != nil {
			h, err = srec19.ParseFromFile(hexFilePath)
		}
''')],
  demo=go('calibrationReader', [], ROOT_A2L, '''
	t.Chdir(t.TempDir())
	cd, err := ReadCalibration(write(t, "x.a2l", project("")), write(t, "x.hex", "S30600001000AA3F\\n"))
	if err == nil {
		t.Fatal("loaded as something else", cd.Hex)
	}''')),
dict(id='c03-shadowed-group', property='C03', pkg='',
  needs='a group with the identifier of a function',
  breaks='a group is not found if a function has the same identifier',
  edits=[('record_manager.go', '''	buf, exists = m.Groups[ident]
	if exists {''', '''	buf, exists = m.Groups[ident]
	if exists && len(calibrationObjects) == 0 {''')],
  demo=go('calibrationReader', [], ROOT_A2L, '''
	t.Chdir(t.TempDir())
	cd, err := ReadCalibration(write(t, "x.a2l", project("/begin FUNCTION x \\"\\" /end FUNCTION /begin GROUP x \\"\\" /end GROUP")), write(t, "x.hex", ":00000001FF\\n"))
	if err != nil {
		t.Fatal(err)
	}
	if n := len(cd.GetObjectByIdent("x")); n != 2 {
		t.Fatal(n)
	}''')),
dict(id='v01-rip-collision', property='V01', pkg='a2l',
  needs='a record layout in which RIP_ADDR_Z has the position of another component',
  breaks='the collision is not reported; one component silently replaces the other in the order',
  edits=[('a2l/record_layout.go', '''	if rl.RipAddrZ.PositionSet {
		field, exists := order[rl.RipAddrZ.Position]
		if exists {
			err = errors.New("position set twice in RecordLayout " + rl.Name + " for " + field + " and RipAddrZ")
			log.Err(err).Msg("recordLayout relative positions could not be determined")
			return order, err
		}
''', '''	if rl.RipAddrZ.PositionSet {
''')],
  demo=go('a2l', [], A2L, '''
	a, err := parse(t, project("/begin RECORD_LAYOUT r NO_AXIS_PTS_X 1 UBYTE RIP_ADDR_Z 1 ULONG /end RECORD_LAYOUT"))
	if err != nil {
		t.Fatal(err)
	}
	rl := a.Project.Modules[0].RecordLayouts["r"]
	if o, err := rl.GetRecordLayoutRelativePositions(); err == nil {
		t.Fatal("collision not reported", o)
	}''')),
dict(id='v02-int64-le', property='V02', pkg='',
  needs='a negative 64-bit integer in a little-endian module',
  breaks='negative 64-bit values decode as large positive numbers',
  edits=[('record_manager.go', 'val := int64(binary.LittleEndian.Uint64(byteSlice))', 'val := binary.LittleEndian.Uint64(byteSlice)')],
  demo=go('calibrationReader', ['github.com/asap2Go/calibrationReader/a2l'], '', '''
	cd := CalibrationData{}
	cd.A2l.Project.Modules = make([]a2l.Module, 1)
	cd.A2l.Project.Modules[0].ModCommon.ByteOrder = a2l.ByteOrder{ByteOrder: a2l.MsbLast, ByteOrderSet: true}
	v, err := cd.convertByteSliceToDatatype([]byte{254, 255, 255, 255, 255, 255, 255, 255}, a2l.AInt64)
	if err != nil || v != -2 {
		t.Fatal(v, err)
	}''')),
dict(id='v03-slong-module', property='V03', pkg='',
  needs='a module-wide ALIGNMENT_LONG, no alignment in the record layout and an SLONG component',
  breaks='SLONG uses the module\'s word alignment instead of its long alignment',
  edits=[('calib_data.go', '''	case a2l.SLONG:
		if rl.AlignmentLong.AlignmentBorderSet && rl.AlignmentLong.AlignmentBorder > 0 {
			modulo := address % uint32(rl.AlignmentLong.AlignmentBorder)
			if modulo != 0 {
				return address + uint32(rl.AlignmentLong.AlignmentBorder) - modulo
			} else {
				return address
			}
		}
		a := cd.A2l.Project.Modules[cd.ModuleIndex].ModCommon.AlignmentLong
''', '''	case a2l.SLONG:
		if rl.AlignmentLong.AlignmentBorderSet && rl.AlignmentLong.AlignmentBorder > 0 {
			modulo := address % uint32(rl.AlignmentLong.AlignmentBorder)
			if modulo != 0 {
				return address + uint32(rl.AlignmentLong.AlignmentBorder) - modulo
			} else {
				return address
			}
		}
		a := cd.A2l.Project.Modules[cd.ModuleIndex].ModCommon.AlignmentWord
''')],
  demo=go('calibrationReader', ['github.com/asap2Go/calibrationReader/a2l'], '', '''
	cd := CalibrationData{}
	cd.A2l.Project.Modules = make([]a2l.Module, 1)
	cd.A2l.Project.Modules[0].ModCommon.AlignmentLong.AlignmentBorder = 2
	cd.A2l.Project.Modules[0].ModCommon.AlignmentLong.AlignmentBorderSet = true
	if v := cd.getNextAlignedAddress(0x1001, a2l.SLONG, &a2l.RecordLayout{}); v != 0x1002 {
		t.Fatal(v)
	}''')),
dict(id='v04-axis5-count', property='V04', pkg='',
  needs='a five-dimensional layout with stored point counts that differ between axes 4 and 5',
  breaks='axis 5 is read with the point count of axis 4',
  edits=[('axis_pts.go', 'noAxisPts = cv.noAxisPts5Value', 'noAxisPts = cv.noAxisPts4Value')],
  demo=go('calibrationReader', ['github.com/asap2Go/calibrationReader/a2l'], ROOT_A2L, '''
	t.Chdir(t.TempDir())
	cd, err := ReadCalibration(write(t, "x.a2l", project("/begin RECORD_LAYOUT r NO_AXIS_PTS_4 1 UBYTE NO_AXIS_PTS_5 2 UBYTE AXIS_PTS_4 3 UBYTE INDEX_INCR DIRECT AXIS_PTS_5 4 UBYTE INDEX_INCR DIRECT /end RECORD_LAYOUT")), write(t, "x.hex", ":00000001FF\\n"))
	if err != nil {
		t.Fatal(err)
	}
	for i, b := range []byte{2, 3, 11, 12, 21, 22, 23, 31} {
		cd.Hex[uint32(i)] = b
	}
	c := a2l.Characteristic{Name: "c", Address: "0x0", Deposit: "r", DepositSet: true}
	rl := cd.A2l.Project.Modules[0].RecordLayouts["r"]
	cv := NewCharacteristicValues(&c, &rl)
	getValuesFromHex(cv, &cd)
	if fmt.Sprint(cv.Axis5Values) != "[21 22 23]" {
		t.Fatal(cv.Axis5Values)
	}''')),
dict(id='v05-zero-slope', property='V05', pkg='',
  needs='a linear conversion whose factor is zero',
  breaks='a constant linear conversion is reported as missing coefficients',
  edits=[('compu_methods.go', '		if !(cm.CoeffsLinear.ASet && cm.CoeffsLinear.BSet) {', '		if cm.CoeffsLinear.A == 0 || !cm.CoeffsLinear.BSet {')],
  demo=go('calibrationReader', ['github.com/asap2Go/calibrationReader/a2l'], '', '''
	cm := a2l.CompuMethod{Name: "m", ConversionType: a2l.Linear, CoeffsLinear: a2l.CoeffsLinear{A: 0, ASet: true, B: 7, BSet: true}}
	if v, err := convDecToPhy(3, &cm, &CalibrationData{}); err != nil || v != 7 {
		t.Fatal(v, err)
	}''')),
dict(id='v06-int-keys', property='V06', pkg='',
  needs='a verbal table and an internal value that is no whole number',
  breaks='values are compared as whole numbers, so a row matches values it does not hold',
  edits=[('compu_methods.go', '''			if dec == tab.InVal[i] {
				return tab.OutVal[i], err
			}
		}
		if !tab.DefaultValue.DisplayStringSet {''', '''			if int64(dec) == int64(tab.InVal[i]) {
				return tab.OutVal[i], err
			}
		}
		if !tab.DefaultValue.DisplayStringSet {''')],
  demo=go('calibrationReader', ['github.com/asap2Go/calibrationReader/a2l'], '', '''
	tab := a2l.CompuVTab{Name: "v", InVal: []float64{1}, InValSet: true, OutVal: []string{"on"}, OutValSet: true}
	cd := CalibrationData{}
	cd.A2l.Project.Modules = []a2l.Module{{CompuVTabs: map[string]a2l.CompuVTab{"v": tab}}}
	if s, err := calcTabVerb(1.5, &tab, &cd); err == nil {
		t.Fatal(s)
	}''')),
dict(id='v07-first-module', property='V07', pkg='',
  needs='a file with several modules and a selected module other than the first',
  breaks='system constants are looked up in the first module instead of the selected one',
  edits=[('record_manager.go', '	modPar := cd.A2l.Project.Modules[cd.ModuleIndex].ModPar\n', '	modPar := cd.A2l.Project.Modules[0].ModPar\n')],
  demo=go('calibrationReader', [], ROOT_A2L, '''
	t.Chdir(t.TempDir())
	m := "/begin MOD_PAR \\"\\" SYSTEM_CONSTANT \\"k\\" \\"%d\\" /end MOD_PAR"
	cd, err := ReadCalibration(write(t, "x.a2l", project(fmt.Sprintf(m, 1), fmt.Sprintf(m, 2))), write(t, "x.hex", ":00000001FF\\n"))
	if err != nil {
		t.Fatal(err)
	}
	cd.ModuleIndex = 1
	for k := range cd.A2l.Project.Modules[1].ModPar.SystemConstants {
		v, err := cd.getSystemConstantValue(k)
		if err != nil || v != cd.A2l.Project.Modules[1].ModPar.SystemConstants[k].Value {
			t.Fatal(v, err)
		}
	}''')),
dict(id='c04-stuck-collector', property='C04', pkg='srec19',
  needs='an S-record file rejected for a double definition while later parts of the file are still to be collected',
  breaks='the goroutines holding the later parts stay blocked for ever with their data',
  edits=[('srec19/hex.go', '		c := make(chan []dataByte, 1)\n', '		c := make(chan []dataByte)\n')],
  demo=go('srec19', ['runtime', 'time'], SREC, '''
	lines := []string{rec(16, 1), rec(16, 2)}
	for i := uint32(0); i < 400; i++ {
		lines = append(lines, rec(64+i, byte(i)))
	}
	p := write(t, "x.s19", lines...)
	before := runtime.NumGoroutine()
	for i := 0; i < 3; i++ {
		if _, err := ParseFromFile(p); err == nil {
			t.Fatal("accepted")
		}
	}
	for i := 0; i < 40 && runtime.NumGoroutine() > before; i++ {
		time.Sleep(100 * time.Millisecond)
	}
	if n := runtime.NumGoroutine(); n > before {
		t.Fatal("goroutines left behind:", n-before)
	}''')),
dict(id='c05-kept-answer', property='C05', pkg='',
  needs='an answer that is kept while another identifier is looked up',
  breaks='all lookups share one buffer, so a later lookup overwrites the answer of an earlier one',
  edits=[('record_manager.go', 'func (cd *CalibrationData) GetObjectByIdent(ident string) []interface{} {\n\tvar calibrationObjects []interface{}\n', 'func (cd *CalibrationData) GetObjectByIdent(ident string) []interface{} {\n\tcalibrationObjects := foundObjects[:0]\n'),
    ('record_manager.go', '// GetObjectByIdent returns an object', '// foundObjects keeps the result slice from growing anew with every lookup\nvar foundObjects = make([]interface{}, 0, 16)\n\n// GetObjectByIdent returns an object')],
  demo=go('calibrationReader', ['github.com/asap2Go/calibrationReader/a2l'], '', '''
	cd := CalibrationData{}
	cd.A2l.Project.Modules = []a2l.Module{{Characteristics: map[string]a2l.Characteristic{"a": {Name: "a"}, "b": {Name: "b"}}}}
	a := cd.GetObjectByIdent("a")
	cd.GetObjectByIdent("b")
	if c, ok := a[0].(a2l.Characteristic); !ok || c.Name != "a" {
		t.Fatal(a[0])
	}''')),
dict(id='c06-list-copy', property='C06', pkg='a2l',
  needs='a REF_MEASUREMENT list with very many members',
  breaks='the list is copied for each of its members, so that the effort grows with the square of its length',
  edits=[('a2l/ref_measurement.go', '			rm.identifier = append(rm.identifier, tok.current())', '			rm.identifier = append(append(make([]string, 0, len(rm.identifier)+1), rm.identifier...), tok.current())')],
  demo=go('a2l', ['runtime', 'strings'], A2L, '''
	used := func(n int) uint64 {
		var a, b runtime.MemStats
		runtime.ReadMemStats(&a)
		if _, err := parse(t, project("/begin GROUP g \\"\\" /begin REF_MEASUREMENT "+strings.Repeat("m\\n", n)+" /end REF_MEASUREMENT /end GROUP")); err != nil {
			t.Fatal(err)
		}
		runtime.ReadMemStats(&b)
		return b.TotalAlloc - a.TotalAlloc
	}
	if x, y := used(5000), used(40000); y > 30*x {
		t.Fatal("memory", x, y)
	}''')),
dict(id='c07-shared-verdict', property='C07', pkg='srec19',
  needs='a damaged and a good S-record file loaded at the same time',
  breaks='the verdict on the checksums is kept in one place for all loads, so a load can be judged by the records of another one',
  edits=[('srec19/hex.go', '		vcsChan := make(chan bool, numProc)\n', '		checksumsInvalid.Store(false)\n'),
    ('srec19/hex.go', 'go validateChecksumsRoutine(wgChecksum, vcsChan, recs[start:end])', 'go validateChecksumsRoutine(wgChecksum, recs[start:end])'),
    ('srec19/hex.go', '''		close(vcsChan)
		if len(vcsChan) != 0 {
			for v := range vcsChan {
				if !v {
					err = errors.New("invalid checksums detected")
					return h, err
				}
			}
		}
''', '''		if checksumsInvalid.Load() {
			err = errors.New("invalid checksums detected")
			return h, err
		}
'''),
    ('srec19/record.go', '''// validateChecksumsRoutine calls''', '''// checksumsInvalid is set as soon as one of the routines finds an invalid checksum
var checksumsInvalid atomic.Bool

// validateChecksumsRoutine calls'''),
    ('srec19/record.go', '	"sync"\n', '	"sync"\n	"sync/atomic"\n'),
    ('srec19/record.go', 'it is given and sends false to a channel in case a checksum isn\'t valid.', 'it is given and records it in case a checksum isn\'t valid.'),
    ('srec19/record.go', 'func validateChecksumsRoutine(wg *sync.WaitGroup, c chan bool, recs []*record) {', 'func validateChecksumsRoutine(wg *sync.WaitGroup, recs []*record) {'),
    ('srec19/record.go', '			c <- false\n', '			checksumsInvalid.Store(true)\n')],
  demo=go('srec19', ['sync'], SREC, '''
	var good, bad []string
	for i := uint32(0); i < 3000; i++ {
		good = append(good, rec(16*i, byte(i), 1, 2, 3))
	}
	bad = append(bad, good...)
	bad[2999] = bad[2999][:len(bad[2999])-2] + "00"
	g, b := write(t, "g.s19", good...), write(t, "b.s19", bad...)
	for round := 0; round < 60; round++ {
		var wg sync.WaitGroup
		errs := make([]error, 8)
		for i := range errs {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				p := g
				if i%2 == 1 {
					p = b
				}
				_, errs[i] = ParseFromFile(p)
			}(i)
		}
		wg.Wait()
		for i, err := range errs {
			if (err == nil) != (i%2 == 0) {
				t.Fatal("load", i, err)
			}
		}
	}''')),
dict(id='c08-huge-count', property='C08', pkg='',
  needs='a layout whose stored point count is a 64-bit number and an image in which it is absurdly large',
  breaks='reading the axis panics because memory for all stated points is reserved in advance',
  edits=[('axis_pts.go', '''		noAxisPts = cv.noAxisPtsYValue
	} else {
		err = errors.New("number of axis points could not be determined")
		log.Err(err).Msg("could not convert axisPointsY values")
		return nil, err
	}
''', '''		noAxisPts = cv.noAxisPtsYValue
	} else {
		err = errors.New("number of axis points could not be determined")
		log.Err(err).Msg("could not convert axisPointsY values")
		return nil, err
	}
	val := make([]float64, 0, noAxisPts)
'''), ('axis_pts.go', '''func (cv *CharacteristicValues) getAxisPointsY(cd *CalibrationData, rl *a2l.RecordLayout, curPos *uint32) ([]float64, error) {
	var val []float64
''', '''func (cv *CharacteristicValues) getAxisPointsY(cd *CalibrationData, rl *a2l.RecordLayout, curPos *uint32) ([]float64, error) {
''')],
  demo=go('calibrationReader', ['github.com/asap2Go/calibrationReader/a2l'], '', '''
	rl := a2l.RecordLayout{}
	rl.AxisPtsY.Datatype = a2l.UBYTE
	cd := CalibrationData{Hex: map[uint32]byte{}}
	cd.A2l.Project.Modules = []a2l.Module{{}}
	cv := CharacteristicValues{noAxisPtsYValue: 0x0101010101010101}
	var pos uint32
	if _, err := cv.getAxisPointsY(&cd, &rl, &pos); err == nil {
		t.Fatal("no error")
	}''')),
]
