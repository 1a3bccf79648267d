S=[]
def add(id,property,edits,needs,what,demo): S.append(dict(id=id,property=property,edits=edits,needs=needs,what=what,demo=demo))
add("c01-leading-zero","C01",[("parse.py","            return int(value)\n","            return int(value, 8)\n")],
 "a number written with leading zeros","decimal numbers with leading zeros are read as octal",'''
d = Parser.from_xml_str(device(peripheral(register("R", 4, "<size>032</size>")))).get_parsed_device()
assert d.peripherals[0].registers_clusters[0].size == 32, d.peripherals[0].registers_clusters[0].size
''')
add("c01-wc-parent","C01",[("parse.py",'''        if (range_element := write_cronstraint_element.find("range")) is not None:''','''        if (range_element := parent_element.find(".//range")) is not None:''')],
 "a register with a write constraint without range whose field's constraint has one","a register's write constraint takes over the range of a constraint nested deeper",'''
f = "<field><name>F</name><lsb>0</lsb><msb>3</msb><writeConstraint><range><minimum>1</minimum><maximum>2</maximum></range></writeConstraint></field>"
x = device(peripheral(register("R", 0, "<writeConstraint><writeAsRead>true</writeAsRead></writeConstraint><fields>" + f + "</fields>")))
r = Parser.from_xml_str(x).get_parsed_device().peripherals[0].registers_clusters[0]
assert r.write_constraint.range_ is None, r.write_constraint
''')
add("c02-default-false","C02",[("serialize.py",None,None)],"","","") if False else None
add("c02-sau-enabled","C02",[("serialize.py",'''        if self.region.enabled is not None:
            element.attrib["enabled"] = str(self.region.enabled).lower()''','''        if self.region.enabled:
            element.attrib["enabled"] = str(self.region.enabled).lower()''')],
 "a security attribution region that is explicitly disabled","enabled=false of a region is lost on serializing",'''
cpu = ('<cpu><name>CM33</name><revision>r0p1</revision><endian>little</endian><mpuPresent>true</mpuPresent><fpuPresent>true</fpuPresent>'
       '<nvicPrioBits>3</nvicPrioBits><vendorSystickConfig>false</vendorSystickConfig><sauRegionsConfig><region enabled="false" name="S">'
       '<base>0x10</base><limit>0x20</limit><access>n</access></region></sauRegionsConfig></cpu>')
d = Parser.from_xml_str(device(peripheral(register("R", 0)), cpu)).get_parsed_device()
e = Parser.from_xml_content(Serializer.device_to_svd_content(d)).get_parsed_device()
assert e.cpu.sau_regions_config.regions[0].enabled is False, e.cpu.sau_regions_config.regions[0].enabled
''')
add("c02-wc-range-zero","C02",[("serialize.py",'''        if self.constraint.range_ is not None:
            range_element''','''        if self.constraint.range_ is not None and any(self.constraint.range_):
            range_element''')],
 "a write constraint that allows only zero","the range 0..0 of a write constraint is lost on serializing",'''
x = device(peripheral(register("R", 0, "<writeConstraint><range><minimum>0</minimum><maximum>0</maximum></range></writeConstraint>")))
d = Parser.from_xml_str(x).get_parsed_device()
e = Parser.from_xml_content(Serializer.device_to_svd_content(d)).get_parsed_device()
assert e.peripherals[0].registers_clusters[0].write_constraint.range_ == (0, 0)
''')
add("c03-order","C03",[("serialize.py",'''        if self.register.alternate_group is not None:
            element.append(self._append_element("alternateGroup", text=self.register.alternate_group))

        if self.register.alternate_register is not None:
            element.append(self._append_element("alternateRegister", text=self.register.alternate_register))

        element.append(self._append_element("addressOffset", text=f"{self.register.address_offset:#x}"))
''','''        element.append(self._append_element("addressOffset", text=f"{self.register.address_offset:#x}"))

        if self.register.alternate_group is not None:
            element.append(self._append_element("alternateGroup", text=self.register.alternate_group))

        if self.register.alternate_register is not None:
            element.append(self._append_element("alternateRegister", text=self.register.alternate_register))
''')],"a register with an alternate group or register","serialized registers with alternates violate the schema's element order",'''
x = device(peripheral(register("A", 0) + "<register><name>R</name><alternateRegister>A</alternateRegister><addressOffset>0</addressOffset></register>"))
d = Parser.from_xml_str(x).get_parsed_device()
assert Validator.validate_xml_content(Serializer.device_to_svd_content(d), False)
''')
add("c04-index-value","C04",[("util/process_parse_model_convert.py",'''        value=str(value.value),
''','''        value=str(value.value or None),
''')],"an enumerated value 0","converted enumerated values with value 0 cannot be processed again",'''
x = device(peripheral(register("R", 0, "<fields><field><name>F</name><lsb>0</lsb><msb>1</msb><enumeratedValues><enumeratedValue><name>z</name><value>0</value></enumeratedValue></enumeratedValues></field></fields>")))
p = Process.from_xml_str(x)
Process(p.convert_processed_device_to_svd_device(), None)
''')
add("c04-alt-group","C04",[("util/process_parse_model_convert.py",'''        modified_write_values=register.modified_write_values,
        write_constraint=(
            process_parse_convert_write_constraint(register.write_constraint) if register.write_constraint else None
        ),
        read_action=register.read_action,
        fields=fields,''','''        modified_write_values=register.modified_write_values,
        write_constraint=(
            process_parse_convert_write_constraint(register.write_constraint)
            if register.write_constraint and not fields
            else None
        ),
        read_action=register.read_action,
        fields=fields,''')],"a register with fields and a write constraint of its own","the write constraint of a register with fields is lost on converting",'''
x = device(peripheral(register("R", 0, "<writeConstraint><writeAsRead>true</writeAsRead></writeConstraint><fields><field><name>F</name><lsb>0</lsb><msb>1</msb></field></fields>")))
p = Process.from_xml_str(x)
assert p.convert_processed_device_to_svd_device().peripherals[0].registers_clusters[0].write_constraint.write_as_read is True
''')
add("c05-shared-replica","C05",[("resolve/graph.py",'''                processed=copy.copy(existing_node.processed_or_none),''','''                processed=existing_node.processed_or_none,''')],
 "two peripherals derived from each other's content of which one adds fields to nothing but changes inherited sizes","replicated elements share the base's object, so what is finalized for one shows in the other",'''
c = "<cluster><name>C</name><addressOffset>0</addressOffset>" + register("R", 0) + "</cluster>"
x = device(peripheral(c, more="") + '<peripheral derivedFrom="P"><name>Q</name><baseAddress>0x50000000</baseAddress><size>16</size><access>read-only</access></peripheral>')
d = process(x)
p, q = d.peripherals
assert (p.registers[0].access.value, q.registers[0].access.value) == ("read-write", "read-only"), (p.registers[0].access, q.registers[0].access)
''')
add("c05-interrupts","C05",[("process.py",'''        interrupts = self._process_interrupts(parsed.interrupts)
''','''        interrupts = self._process_interrupts(parsed.interrupts) or (base.interrupts if base else [])
''')],"a peripheral deriving from one with interrupts without stating interrupts","interrupts are inherited",'''
i = "<interrupt><name>I</name><value>3</value></interrupt>"
b = "<addressBlock><offset>0</offset><size>0x1000</size><usage>registers</usage></addressBlock>"
x = device(peripheral(register("R", 0), blocks=b + i) + '<peripheral derivedFrom="P"><name>Q</name><baseAddress>0x50000000</baseAddress></peripheral>')
assert [len(p.interrupts) for p in process(x).peripherals] == [1, 0]
''')
add("c05-scope","C05",[("resolve/resolver.py",'''                if node == exclude_node:
                    continue
                if node.name''','''                if node.name''')],
 "an element deriving by path from one of its own name elsewhere, or by its own name","the element itself is found as its own base",'''
x = device(peripheral(register("R", 0, "<access>read-only</access>")) + peripheral(register("R", 0, attr=' derivedFrom="P.R"'), name="Q", base=0x50000000)
           + peripheral('<cluster><name>C</name><addressOffset>0</addressOffset>' + register("S", 0) + '</cluster><cluster derivedFrom="P.C"><name>C2</name><addressOffset>0x20</addressOffset></cluster>', name="S", base=0x60000000).replace('P.C"', 'S.C"'))
d = process(x)
y = device(peripheral(register("A", 0, "<access>read-only</access>") + register("Z", 8, attr=' derivedFrom="P.A"')) )
process(y)
z = device(peripheral(register("A", 0), name="A", base=0x1000) + '<peripheral derivedFrom="A"><name>A</name><baseAddress>0x2000</baseAddress></peripheral>')
try:
    process(z)
except ProcessException as e:
    assert "Duplicate" in str(e), e
''')
add("c06-tie","C06",[("process.py",'''            return (reg_cluster.base_address, alt_key, reg_cluster.name)''','''            return (reg_cluster.base_address, alt_key)'''),
 ("resolve/resolver.py",'''        peripheral.registers_clusters = sorted(registers_clusters, key=lambda rc: (rc.address_offset, rc.name))''','''        peripheral.registers_clusters = sorted(registers_clusters, key=lambda rc: rc.address_offset)''')],
 "two registers at the same address","the order of registers at the same address follows the document",'''
a = register("A", 0, "<access>read-only</access>")
b = register("B", 0, "<access>write-only</access>")
assert [r.name for r in process(device(peripheral(a + b))).peripherals[0].registers] == [r.name for r in process(device(peripheral(b + a))).peripherals[0].registers]
n = [[r.name for r in process(device(peripheral(x))).peripherals[0].registers_clusters] for x in (a + b, b + a)]
assert n[0] == n[1], n
''')
add("c07-twice","C07",[("process.py",'''            resolved_names.append(name.replace("%s", index))''','''            resolved_names.append(name.replace("%s", index, 1))''')],
 "a list whose name contains the placeholder twice","only the first placeholder of a name is replaced",'''
x = device(peripheral(register("R%s_%s", 0, before="<dim>2</dim><dimIncrement>4</dimIncrement>")))
assert [r.name for r in process(x).peripherals[0].registers] == ["R0_0", "R1_1"]
''')
add("c07-letters","C07",[("process.py",'''            dim_index_list = [chr(i) for i in range(ord(start), ord(end) + 1)]''','''            dim_index_list = [chr(i) for i in range(ord(start), ord(start) + dim)]''')],
 "a letter range that does not fit dim","a letter range longer or shorter than dim is accepted",'''
x = device(peripheral(register("R%s", 0, before="<dim>2</dim><dimIncrement>4</dimIncrement><dimIndex>A-D</dimIndex>")))
try:
    process(x)
except ProcessException:
    pass
else:
    raise SystemExit("accepted")
''')
add("c08-nested","C08",[("resolve/resolver.py",'''            if child_size is not None and child_size % 8 != 0:
                child_size = 0
''','''            if child_size is not None and child_size % 8 != 0:
                return 0
''')],"a container with an element of an odd size next to good ones","one element that is left out makes the container lose its size",'''
x = device(peripheral(register("A", 0, "<size>16</size>") + register("B", 4, "<size>7</size>") + register("C", 8, "<size>16</size>")))
assert process(x).peripherals[0].size == 16, process(x).peripherals[0].size
''')
add("c08-cluster","C08",[("resolve/resolver.py",'''        if element.size is not None:
            return element.size

        return self._get_parent_size_recursively(parent)''','''        if element.size is not None and isinstance(element, IPeripheral):
            return element.size

        return self._get_parent_size_recursively(parent)''')],"a cluster that states a size its registers do not","a register's size ignores the size stated by its cluster",'''
c = "<cluster><name>C</name><addressOffset>0</addressOffset><size>8</size>" + register("R", 0) + "</cluster>"
d = process(device(peripheral(c)))
assert d.peripherals[0].registers[0].size == 8, d.peripherals[0].registers[0].size
''')
add("c09-mask","C09",[("process.py",'''                    register_cluster.reset_value,
                    register_cluster.reset_mask,
                )
            elif''','''                    register_cluster.reset_value,
                    reset_mask,
                )
            elif''')],"a reset mask stated by a cluster only","registers in a cluster inherit the reset mask of the container around the cluster",'''
c = "<cluster><name>C</name><addressOffset>0</addressOffset><resetMask>0xFF</resetMask>" + register("R", 0) + "</cluster>"
d = process(device(peripheral(c)))
assert d.peripherals[0].registers[0].reset_mask == 0xFF
''')
add("c09-field-wc","C09",[("process.py",'''            field.write_constraint = or_if_none(field.write_constraint, write_constraint)''','''            if field.access != AccessType.READ_ONLY:
                field.write_constraint = or_if_none(field.write_constraint, write_constraint)''')],"a read-only field in a register with a write constraint","read-only fields do not inherit the write constraint",'''
x = device(peripheral(register("R", 0, "<writeConstraint><writeAsRead>true</writeAsRead></writeConstraint><fields><field><name>F</name><lsb>0</lsb><msb>1</msb><access>read-only</access></field></fields>")))
assert process(x).peripherals[0].registers[0].fields[0].write_constraint is not None
''')
add("c10-width","C10",[("process.py",'''base.msb - base.lsb + 1 if base else None)''','''base.msb - base.lsb if base else None)''')],"a derived field stating only its bit offset","the width of a derived field that only moves is one bit short",'''
f = '<fields><field><name>A</name><lsb>0</lsb><msb>3</msb></field><field derivedFrom="A"><name>B</name><bitOffset>8</bitOffset></field></fields>'
x = device(peripheral(register("R", 0, f)))
b = process(x).peripherals[0].registers[0].fields[1]
assert (b.lsb, b.msb) == (8, 11), b
''')
add("c11-cover","C11",[("process.py",'''        covered_values = {value.value for value in enumerated_values if value.value is not None}''','''        covered_values = {value.value for value in enumerated_values if value.value}''')],"a default value next to an explicit value 0","the default value covers 0 a second time",'''
e = "<enumeratedValues><enumeratedValue><name>z</name><value>0</value></enumeratedValue><enumeratedValue><name>d</name><isDefault>true</isDefault></enumeratedValue></enumeratedValues>"
x = device(peripheral(register("R", 0, "<fields><field><name>F</name><lsb>0</lsb><msb>1</msb>" + e + "</field></fields>")))
v = [y.value for y in process(x).peripherals[0].registers[0].fields[0].enumerated_value_containers[0].enumerated_values]
assert v == [0, 1, 2, 3], v
''')
add("c11-names","C11",[("process.py",'''        if value.name in self._seen_names:
            warnings.warn''','''        if value.name in self._seen_names and value.value not in self._seen_values:
            warnings.warn''')],"","","") if False else None
add("c12-last","C12",[("process.py",'''                cluster_effective_end = max(
                    child.base_address
                    + (_to_byte(child.size) if isinstance(child, Register) else child.cluster_size)
                    - 1
                    for child in children
                )''','''                last = children[-1]
                cluster_effective_end = (
                    last.base_address + (_to_byte(last.size) if isinstance(last, Register) else last.cluster_size) - 1
                )''')],"a cluster in which an element that starts earlier ends later","the end of a cluster is that of its last element",'''
c = "<cluster><name>C</name><addressOffset>0</addressOffset>" + register("A", 0, "<size>64</size>") + register("B", 2, "<size>8</size>") + "</cluster>"
d = process(device(peripheral(c)))
assert d.peripherals[0].registers_clusters[0].cluster_size == 8, d.peripherals[0].registers_clusters[0].cluster_size
''')
add("c13-neighbour","C13",[("process.py",'''            for end, name in intervals:
                if item''','''            for end, name in intervals[-2:]:
                if item''')],"a long register overlapping one more than two elements later","only overlaps with the two preceding elements are reported",'''
c = ("<cluster><name>L</name><addressOffset>0</addressOffset>" + register("X", 0) + register("Y", 0x40) + "</cluster>"
     + register("B", 4) + register("C", 8) + register("Z", 0x10))
w = warned(lambda: process(device(peripheral(c))))
assert any("'Z'" in m and "'L'" in m for m in w), w
''')
add("c13-reverse","C13",[("process.py",'''                        alt_value = getattr(lookup.get(name, None), alt_attr, None)
                        if alt_value != item.name:''','''                        alt_value = getattr(lookup.get(name, None), alt_attr, None)
                        if alt_value is None:''')],"an overlap with an element that is declared an alternate of a third one","an overlap with any element that has an alternate at all is not reported",'''
c = register("Z", 0x40) + "<register><name>A</name><alternateRegister>Z</alternateRegister><addressOffset>0</addressOffset><size>64</size></register>" + register("B", 4)
w = warned(lambda: process(device(peripheral(c))))
assert any("'A'" in m and "'B'" in m for m in w), w
''')
add("c14-reserved","C14",[("process.py",'''            if i_reg_cluster.name.lower() == "reserved":''','''            if i_reg_cluster.name.lower().startswith("reserved"):''')],"a register whose name begins with reserved","registers such as RESERVED_CTRL are left out",'''
d = process(device(peripheral(register("RESERVED_CTRL", 0) + register("R", 4))))
assert len(d.peripherals[0].registers) == 2
''')
add("c15-loop","C15",[("resolve/resolver.py",'''            if processable_nodes == previous_nodes:
                self._logger.log_loop_detected()
                raise LoopException("Stuck in a loop, the same elements are being processed repeatedly")
''',''''''),],"","","") if False else None
add("c15-wrong-level","C15",[("resolve/resolver.py",'''                    if node.level == target_level:
                        matches.append(node)''','''                    matches.append(node)''')],"a derivedFrom naming an element of another kind, or of the right kind beside one of another kind with the same name","elements of another kind are taken as base",'''
x = device(peripheral(register("R", 0) + '<cluster derivedFrom="R"><name>C</name><addressOffset>8</addressOffset></cluster>'))
try:
    process(x)
except ProcessException as e:
    assert "different levels" not in str(e), e
''')
add("c16-count","C16",[("process.py",'''        if len(dim_index_list) != dim:''','''        if len(dim_index_list) < dim:''')],"a dimIndex naming more instances than dim","more instances than dim come out",'''
x = device(peripheral(register("R%s", 0, before="<dim>2</dim><dimIncrement>4</dimIncrement><dimIndex>A,B,C</dimIndex>")))
try:
    process(x)
except ProcessException:
    pass
else:
    raise SystemExit("accepted")
''')
add("c17-sort","C17",[("process.py",'''        address_blocks: list[AddressBlock] = []
        for parsed_address_block in parsed_address_blocks:''','''        address_blocks: list[AddressBlock] = []
        parsed_address_blocks.sort(key=lambda block: block.offset)
        for parsed_address_block in parsed_address_blocks:''')],"a peripheral whose address blocks are not in ascending order","processing reorders the address blocks of the parsed device it is given",'''
b = "<addressBlock><offset>0x100</offset><size>4</size><usage>registers</usage></addressBlock><addressBlock><offset>0</offset><size>4</size><usage>registers</usage></addressBlock>"
d = Parser.from_xml_str(device(peripheral(register("R", 0), blocks=b))).get_parsed_device()
Process(d, None)
assert [x.offset for x in d.peripherals[0].address_blocks] == [0x100, 0]
''')
add("c17-memo","C17",[("process.py",'''class _EnumeratedValueValidator:
    def __init__(self):
        self._seen_names: set[str] = set()''','''_WILDCARDS: dict[str, list[str]] = {}


class _EnumeratedValueValidator:
    def __init__(self):
        self._seen_names: set[str] = set()'''),("process.py",'''        x_count = binary_str.count("x")
        combinations = itertools.product("01", repeat=x_count)
        return [self._replace_x_with_combination(binary_str, combination) for combination in combinations]''','''        key = binary_str.lstrip("0")
        if key not in _WILDCARDS:
            combinations = itertools.product("01", repeat=key.count("x"))
            _WILDCARDS[key] = [self._replace_x_with_combination(key, combination) for combination in combinations]
        result = _WILDCARDS[key]
        if len(_WILDCARDS) > 40:
            _WILDCARDS[key] = result[: len(result) // 2]
        return result''')],"many different wildcard values processed before in the same interpreter","after 40 different wildcards, a wildcard seen again covers only half of its values",'''
def values(p):
    e = f"<enumeratedValues><enumeratedValue><name>w</name><value>0b{p}</value></enumeratedValue></enumeratedValues>"
    x = device(peripheral(register("R", 0, "<fields><field><name>F</name><lsb>0</lsb><msb>9</msb>" + e + "</field></fields>")))
    return len(process(x).peripherals[0].registers[0].fields[0].enumerated_value_containers[0].enumerated_values)


first = values("1x1x")
for i in range(60):
    values("1" + bin(i)[2:] + "x")
values("1x1x")
assert values("1x1x") == first == 4, values("1x1x")
''')
add("c18-nested","C18",[("map.py",'''                registers.extend(self._build_map_cluster(address, register_cluster))''','''                registers.extend(self._build_map_cluster(container_address, register_cluster))''')],"a cluster with an offset that contains a cluster","registers in nested clusters are shown at an address lacking the outer cluster's offset",'''
c = "<cluster><name>C</name><addressOffset>0x10</addressOffset><cluster><name>I</name><addressOffset>4</addressOffset>" + register("R", 4) + "</cluster></cluster>"
m = PeripheralRegisterMap.from_xml_str(device(peripheral(c)))
assert m.peripheral_map[0].registers[0].address == 0x40000018, hex(m.peripheral_map[0].registers[0].address)
''')
add("c18-range","C18",[("map.py",'''        begin = start_address + min(block.offset for block in address_blocks)''','''        begin = start_address''')],"a peripheral whose first address block has an offset","the allocated range starts at the base address although nothing is allocated there",'''
b = "<addressBlock><offset>0x100</offset><size>4</size><usage>registers</usage></addressBlock>"
m = PeripheralRegisterMap.from_xml_str(device(peripheral(register("R", 0x100), blocks=b)))
assert m.peripheral_map[0].allocated_range == (0x40000100, 0x40000103)
''')
add("c19-latest","C19",[("validate.py",'''        versions.sort(key=Version)
''','''        versions.sort()
''')],"a document that only the newest schema judges differently","the latest schema is taken to be 1.3.9",'''
assert SVDSchemaVersion.get_latest() is SVDSchemaVersion.V1_3_11
''')
add("c20-entities","C20",[("util/xml_parse.py",'''        parser = etree.XMLParser(remove_comments=True, remove_pis=True, recover=False)
        root = etree.fromstring(content, parser=parser)''','''        parser = etree.XMLParser(remove_comments=True, remove_pis=True, recover=False, resolve_entities=True)
        root = etree.fromstring(content, parser=parser)''')],"a document that includes an external file as an entity, given as bytes or text","external files are pulled into documents that are given as bytes or text",'''
import tempfile
with tempfile.TemporaryDirectory() as t:
    with open(os.path.join(t, "secret"), "w") as f:
        f.write("SECRET")
    x = device(peripheral(register("R", 0))).replace("<device", f'<!DOCTYPE device [<!ENTITY e SYSTEM "file://{t}/secret">]><device', 1).replace("<description>d", "<description>d&e;")
    try:
        d = Parser.from_xml_content(x.encode()).get_parsed_device()
    except Exception:
        pass
    else:
        assert "SECRET" not in (d.description or ""), d.description
''')
add("c20-order","C20",[("util/xml_parse.py",'''_COMMON_ENCODINGS = ["utf-8", "windows-1252", "iso-8859-1", "utf-16", "ascii"]''','''_COMMON_ENCODINGS = ["windows-1252", "utf-8", "iso-8859-1", "utf-16", "ascii"]''')],"UTF-8 bytes that declare another encoding they do not fit","a document in UTF-8 that declares ASCII is read as windows-1252",'''
x = device(peripheral(register("R", 0))).replace('encoding="utf-8"', 'encoding="us-ascii"').replace("<description>d", "<description>\\u00e9")
assert Parser.from_xml_content(x.encode("utf-8")).get_parsed_device().description == "\\u00e9"
''')
add("c21-handle","C21",[("validate.py",'''        with open(xsd_path, "rb") as xsd_file:
            schema = lxml.etree.XMLSchema(safe_parse(xsd_file))
            if not schema.validate(tree):
                if get_exception:
                    schema.assertValid(tree)
                return False
        return True''','''        xsd_file = open(xsd_path, "rb")
        schema = lxml.etree.XMLSchema(safe_parse(xsd_file))
        if not schema.validate(tree):
            if get_exception:
                schema.assertValid(tree)
            return False
        xsd_file.close()
        return True''')],"an invalid document validated with exceptions","the schema file stays open after a failed validation",'''
import gc
gc.disable()
before = set(os.listdir("/proc/self/fd"))
with warnings.catch_warnings(record=True) as w:
    warnings.simplefilter("always", ResourceWarning)
    try:
        Validator.validate_xml_str(device(peripheral(register("R", 0))).replace("<width>32</width>", ""))
    except Exception as e:
        keep = e
assert not [x for x in w if issubclass(x.category, ResourceWarning)] and len(os.listdir("/proc/self/fd")) <= len(before)
''')
add("c22-order","C22",[("resolve/logger.py",'''        if not topological_sorted_nodes:
            self._html_generator.add_paragraph("No processable elements found")
            return
''','''        if not topological_sorted_nodes:
            self._html_generator.add_paragraph("No processable elements found")
            return

        topological_sorted_nodes.sort(key=lambda node: node.name or "")
''')],"a log requested for a document in which a base is named after the elements deriving from it","with a log, elements are processed in the order of their names, so that deriving ones may precede their base",'''
import tempfile
import rustworkx.visualization.graphviz as g
import svdsuite.resolve.graph as rg


def draw(graph, filename=None, **_):
    with open(filename, "w") as f:
        f.write("<svg/>")


rg.graphviz_draw = draw
x = device(peripheral(register("Z", 0, "<access>read-only</access>") + register("A", 4, attr=' derivedFrom="Z"')))
with tempfile.TemporaryDirectory() as t:
    a = Process.from_xml_str(x).get_processed_device().peripherals[0].registers
    b = Process.from_xml_str(x, os.path.join(t, "log.html")).get_processed_device().peripherals[0].registers
assert [r.access for r in a] == [r.access for r in b]
''')
