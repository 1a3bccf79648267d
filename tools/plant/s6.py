S=[]
def add(id,property,edits,needs,what,demo): S.append(dict(id=id,property=property,edits=edits,needs=needs,what=what,demo=demo))

add("c09-ro-constraint","C09",[("process.py",'''            field.write_constraint = or_if_none(field.write_constraint, write_constraint)
''','''            # what can't be written needs no constraint
            if field.access != AccessType.READ_ONLY:
                field.write_constraint = or_if_none(field.write_constraint, write_constraint)
''')],"a read-only field in a register with a write constraint","the field does not get the register's write constraint",'''
x = device(peripheral(register("R", 0, "<writeConstraint><writeAsRead>true</writeAsRead></writeConstraint><fields><field><name>F</name><lsb>0</lsb><msb>1</msb><access>read-only</access></field></fields>")))
f = process(x).peripherals[0].registers_clusters[0].fields[0]
assert f.write_constraint is not None and f.write_constraint.write_as_read is True
''')
add("c13-cluster-chain","C13",[("process.py",'''            stack.extend(name for name, p in cluster_lookup.items() if p.alternate_cluster == current)
            # If the current cluster has an alternate (primary), add it.
            try:
                primary = cluster_lookup[current].alternate_cluster
            except KeyError:
                primary = None
''','''            stack.extend(name for name, p in cluster_lookup.items() if p.alternate_cluster == current)
            # If the current cluster has an alternate (primary), add it.
            primary = None
''')],"three clusters at one place, each the alternate of the one before","an intended overlap of alternates of alternates is reported",'''
def k(n, alt, r):
    return f"<cluster><name>{n}</name><description>d</description>{alt}<addressOffset>0</addressOffset>" + register(r, 0) + "</cluster>"
w = warned(lambda: process(device(peripheral(k("A", "", "X") + k("B", "<alternateCluster>A</alternateCluster>", "Y") + k("C", "<alternateCluster>B</alternateCluster>", "Z")))))
assert not w, w
''')
add("c12-tie","C12",[("process.py",'''        registers.sort(key=lambda r: (r.base_address, r.name))
        return registers
''','''        registers.sort(key=lambda r: r.base_address)
        return registers
''')],"two registers at the same address, one of them in an alternate group and named before the other (or in different clusters)","registers of the same address are not in order of their names",'''
x = device(peripheral(register("B", 0) + register("A", 0, before="").replace("<addressOffset>", "<alternateGroup>G</alternateGroup><addressOffset>")))
assert [r.name for r in process(x).peripherals[0].registers] == ["A", "B"]
''')
add("c16-bitrange","C16",[("process.py",'''                match = re.fullmatch(r"\\[([0-9]+):([0-9]+)\\]", bit_range)
''','''                match = re.fullmatch(r"\\[?([0-9]+):([0-9]+)\\]?", bit_range)
''')],"a bit range lacking one of its brackets","the malformed bit range is accepted",'''
for r in ("7:0", "[7:0", "7:0]"):
    try:
        process(device(peripheral(register("R", 0, f"<fields><field><name>F</name><bitRange>{r}</bitRange></field></fields>"))))
    except ProcessException:
        continue
    assert False, r
''')
add("c16-dimlist","C16",[("process.py",'''        elif re.fullmatch(r"[_0-9a-zA-Z]+(,\\s*[_0-9a-zA-Z]+)+", dim_index):
''','''        elif re.fullmatch(r"[_0-9a-zA-Z]+(,\\s*[_0-9a-zA-Z]*)+", dim_index):
''')],"a dim index with an empty entry","an instance gets a name without index",'''
try:
    process(device(peripheral(register("R%s", 0, before="<dim>3</dim><dimIncrement>4</dimIncrement><dimIndex>A,,C</dimIndex>"))))
    assert False
except ProcessException:
    pass
''')
add("c14-kinds","C14",[("process.py",'''                if name in register_lookup or name in cluster_lookup:
                    raise ProcessException(f"Duplicate register/cluster name found: {name}")
''','''                if name in (register_lookup if isinstance(register_cluster, Register) else cluster_lookup):
                    raise ProcessException(f"Duplicate register/cluster name found: {name}")
''')],"a register and a cluster of the same name side by side","the duplicate name is accepted",'''
x = device(peripheral(register("A", 0) + "<cluster><name>A</name><description>d</description><addressOffset>8</addressOffset>" + register("R", 0) + "</cluster>"))
try:
    process(x)
    assert False
except ProcessException:
    pass
''')
add("c22-noname","C22",[("resolve/logger.py",'''                    f"{node.name or 'no name'} ({node.level.value})"
''','''                    f"{node.name.rpartition('.')[2] or 'no name'} ({node.level.value})"
''')],"logging active and a nameless enumeration (an unnamed enumeratedValues element)","processing fails only when a log is asked for",'''
import tempfile
x = device(peripheral(register("R", 0, "<fields><field><name>F</name><lsb>0</lsb><msb>1</msb><enumeratedValues><enumeratedValue><name>a</name><value>0</value></enumeratedValue></enumeratedValues></field></fields>")))
with tempfile.TemporaryDirectory() as d:
    Process.from_xml_str(x, os.path.join(d, "log.html"))
''')
add("c21-trace","C21",[("validate.py",'''            if not schema.validate(tree):
''','''            if not schema.validate(tree):
                if tree.docinfo.URL:
                    with open(f"{tree.docinfo.URL}.err", "w", encoding="utf-8") as f:
                        f.write(str(schema.error_log))
''')],"an invalid file that is validated","a stray file appears beside the document",'''
import tempfile
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "x.svd")
    with open(p, "w") as f:
        f.write("<device/>")
    assert Validator.validate_xml_file(p, False) is False
    assert os.listdir(d) == ["x.svd"]
''')
add("c01-minmax","C01",[("parse.py",'''            range_ = (minimum, maximum)
''','''            range_ = (min(minimum, maximum), max(minimum, maximum))
''')],"a write constraint whose minimum exceeds its maximum","the parsed range is not what the document says",'''
x = device(peripheral(register("R", 0, "<writeConstraint><range><minimum>5</minimum><maximum>2</maximum></range></writeConstraint>")))
assert Parser.from_xml_str(x).get_parsed_device().peripherals[0].registers_clusters[0].write_constraint.range_ == (5, 2)
''')
add("c01-dim-parent","C01",[("parse.py",'''        for enumerated_value in dim_array_index.enumerated_values:
            enumerated_value.parent = dim_array_index

        return dim_array_index
''','''        if len(dim_array_index.enumerated_values) > 1:
            for enumerated_value in dim_array_index.enumerated_values:
                enumerated_value.parent = dim_array_index

        return dim_array_index
''')],"a dim array index with exactly one value","the value has no parent",'''
x = device(peripheral(register("R[%s]", 0, before="<dim>2</dim><dimIncrement>4</dimIncrement><dimArrayIndex><enumeratedValue><name>a</name><value>0</value></enumeratedValue></dimArrayIndex>")))
i = Parser.from_xml_str(x).get_parsed_device().peripherals[0].registers_clusters[0].dim_array_index
assert i.enumerated_values[0].parent is i
''')
add("c03-empty","C03",[("serialize.py",'''        if self.peripheral.registers_clusters:
            registers_element = lxml.etree.Element("registers")
''','''        if self.peripheral.registers_clusters or self.peripheral.derived_from is None:
            registers_element = lxml.etree.Element("registers")
''')],"a peripheral without registers that is not derived","an empty <registers> element, which the schema refuses",'''
x = Parser.from_xml_str(device("<peripheral><name>P</name><baseAddress>0</baseAddress></peripheral>")).get_parsed_device()
assert Validator.validate_xml_content(Serializer.device_to_svd_content(x))
''')
add("c23-first","C23",[("process.py",'''            if field.msb >= reg_size:
''','''            if field.msb >= reg_size > field.lsb:
''')],"a field that lies beyond its register entirely","the field is not announced",'''
w = warned(lambda: process(device(peripheral(register("R", 0, "<size>16</size><fields><field><name>F</name><lsb>20</lsb><msb>21</msb></field></fields>")))))
assert len([x for x in w if "exceeds" in x]) == 1, w
''')
add("c23-unaligned","C23",[("process.py",'''            if i_peripheral.base_address % 4 != 0:
''','''            if i_peripheral.base_address & 1:
''')] if False else [("process.py",'''        if i_peripheral.base_address % 4 != 0:
''','''        if i_peripheral.base_address % 4 not in (0, 2):
''')],"a peripheral aligned to two bytes only","the misaligned peripheral is not announced",'''
w = warned(lambda: process(device(peripheral(register("R", 0), base=0x40000002))))
assert any("not 4 byte aligned" in x for x in w), w
''')
add("c05-derive-constraint","C05",[("process.py",'''        write_constraint = or_if_none(
            self._process_write_constraint(parsed.write_constraint), base.write_constraint if base else None
        )
        read_action = or_if_none(parsed.read_action, base.read_action if base else None)

        return IField(
''','''        write_constraint = or_if_none(
            self._process_write_constraint(parsed.write_constraint),
            base.write_constraint if base and access is base.access else None,
        )
        read_action = or_if_none(parsed.read_action, base.read_action if base else None)

        return IField(
''')],"a derived field that changes the access and has no write constraint of its own while its base has one","the base's write constraint is lost",'''
b = "<field><name>A</name><lsb>0</lsb><msb>1</msb><access>read-write</access><writeConstraint><writeAsRead>true</writeAsRead></writeConstraint></field>"
x = device(peripheral(register("R", 0, f"<fields>{b}<field derivedFrom='A'><name>B</name><lsb>4</lsb><msb>5</msb><access>write-only</access></field></fields>")))
assert process(x).peripherals[0].registers_clusters[0].fields[1].write_constraint.write_as_read is True
''')
add("c07-second","C07",[("process.py",'''            resolved_names.append(name.replace("[%s]", str(i)))

            if display_name is not None:
                resolved_display_names.append(display_name.replace("[%s]", str(i)))
''','''            resolved_names.append(name.replace("[%s]", str(i)))

            if display_name is not None:
                resolved_display_names.append(display_name.replace("[%s]", str(i % 10)))
''')],"an array of more than ten registers with a display name","display names repeat from the eleventh instance on",'''
x = device(peripheral(register("R[%s]", 0, before="<dim>12</dim><dimIncrement>4</dimIncrement>").replace("<addressOffset>", "<displayName>D[%s]</displayName><addressOffset>")))
assert [r.display_name for r in process(x).peripherals[0].registers_clusters] == [f"D{i}" for i in range(12)]
''')
add("c08-ignored","C08",[("resolve/resolver.py",'''            if child_size is not None and child_size % 8 != 0:
                child_size = 0
''','''            if child_size is not None and child_size % 8 != 0 and child_size < 64:
                child_size = 0
''')],"a register of more than 64 bits whose size is no multiple of eight","the size of an ignored register spreads to its container",'''
with warnings.catch_warnings():
    warnings.simplefilter("ignore")
    d = process(device(peripheral(register("A", 0, "<size>100</size>") + register("B", 16))))
assert [p.size for p in d.peripherals] == [32]
''')
add("c15-dim-self","C15",[("resolve/resolver.py",'''                if node == exclude_node:
                    continue
''','''                if node == exclude_node and not derived_node.is_dim_template:
                    continue
''')],"x","x",'''
pass
''') if False else None
add("c18-fields","C18",[("map.py",'''            fields=register.fields,
''','''            fields=[field for field in register.fields if field.msb < register.size],
''')],"a field beyond the end of its register","the map's register lacks the field",'''
d = process(device(peripheral(register("R", 0, "<size>16</size><fields><field><name>F</name><lsb>20</lsb><msb>21</msb></field></fields>"))))
assert len(PeripheralRegisterMap(d).peripheral_map[0].registers[0].fields) == 1
''')
add("c11-only-default","C11",[("process.py",'''        if default_enumerated_value := enum_value_validator.get_default():
            enumerated_values = self._extend_enumerated_values_with_default(
''','''        default_enumerated_value = enum_value_validator.get_default()
        if default_enumerated_value and len(enumerated_values) > 1:
            enumerated_values = self._extend_enumerated_values_with_default(
''')],"an enumeration of nothing but a default value","the enumeration stays without values or is refused",'''
x = device(peripheral(register("R", 0, "<fields><field><name>F</name><lsb>0</lsb><msb>1</msb><enumeratedValues><enumeratedValue><name>d</name><isDefault>true</isDefault></enumeratedValue></enumeratedValues></field></fields>")))
assert [v.value for v in process(x).peripherals[0].registers_clusters[0].fields[0].enumerated_value_containers[0].enumerated_values] == [0, 1, 2, 3]
''')
add("c17-shared-blocks","C17",[("process.py",'''        device = _ValidateAndFinalize().validate_and_finalize(intermediate_device)

        return device
''','''        device = _ValidateAndFinalize().validate_and_finalize(intermediate_device)

        # the parsed peripherals that were ignored are of no use any more
        names = {p.parsed.name for p in device.peripherals}
        parsed_device.peripherals[:] = [p for p in parsed_device.peripherals if p.name in names or p.derived_from]

        return device
''')],"a document with an ignored peripheral (no registers) processed from a parsed device","processing changes the parsed device it was given",'''
x = Parser.from_xml_str(device(peripheral(register("R", 0)) + peripheral(register("S", 0, "<size>12</size>"), "Q", 0x50000000))).get_parsed_device()
n = len(x.peripherals)
Process(x, None)
assert len(x.peripherals) == n == 2
''')
add("c10-empty-access","C10",[("process.py",'''                # Then, check the write domain.
                for existing in write_fields:
''','''                # Then, check the write domain.
                for existing in write_fields[-1:]:
''')],"a write-only field overlapped by a later read-write field, with another write-only field sorted in between","fields collide unnoticed in write access",'''
def f(n, lo, hi, a):
    return f"<field><name>{n}</name><lsb>{lo}</lsb><msb>{hi}</msb><access>{a}</access></field>"
x = device(peripheral(register("R", 0, "<fields>" + f("A", 0, 9, "write-only") + f("B", 0, 3, "read-only") + f("D", 5, 6, "read-write") + "</fields>")))
y = x
def refused(x):
    try:
        process(x)
    except ProcessException:
        return True
assert refused(x)
''') if False else None
S=[s for s in S if s]
add("c02-hexdim","C02",[("serialize.py",'''        if self.cluster.dim_increment is not None:
            element.append(self._append_element("dimIncrement", text=str(self.cluster.dim_increment)))
''','''        if self.cluster.dim_increment:
            element.append(self._append_element("dimIncrement", text=str(self.cluster.dim_increment)))
''')],"a cluster with dim increment zero","the dim increment is lost in writing",'''
x = Parser.from_xml_str(device(peripheral("<cluster><dim>2</dim><dimIncrement>0</dimIncrement><name>K%s</name><addressOffset>0</addressOffset>" + register("R", 0) + "</cluster>"))).get_parsed_device()
assert "<dimIncrement>0</dimIncrement>" in Serializer.device_to_svd_str(x)
''')
add("c20-map","C20",[("map.py",'''        return cls(Process.from_svd_file(path, resolver_logging_file_path).get_processed_device())
''','''        with open(path, encoding="utf-8", errors="replace") as f:
            return cls(Process.from_xml_str(f.read(), resolver_logging_file_path).get_processed_device())
''')],"a document in another encoding than UTF-8, as a file, through the register map","the map has garbled texts or can't be made",'''
import tempfile
x = device(peripheral(register("R", 0, "<description>\\u00e9</description>")).replace("<addressOffset>0x0</addressOffset><description>\\u00e9</description>", "<description>\\u00e9</description><addressOffset>0</addressOffset>")).replace("utf-8", "iso-8859-1")
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "x.svd")
    with open(p, "wb") as f:
        f.write(x.encode("latin-1"))
    assert PeripheralRegisterMap.from_svd_file(p).peripheral_map[0].registers[0].description == "\\u00e9"
''')
add("c04-enum-range","C04",[("util/process_parse_model_convert.py",'''        value=str(value.value),
''','''        value=hex(value.value),
''')] if False else [("util/process_parse_model_convert.py",'''    enumerated_value_containers = [
        process_parse_convert_enumerated_value_container(container) for container in field.enumerated_value_containers
    ]
''','''    enumerated_value_containers = [
        process_parse_convert_enumerated_value_container(container)
        for container in field.enumerated_value_containers
        if container.enumerated_values
    ]
''')],"an enumeration all of whose values are outside of the field","the converted device lacks the enumeration",'''
x = device(peripheral(register("R", 0, "<fields><field><name>F</name><lsb>0</lsb><msb>1</msb><enumeratedValues><name>E</name><enumeratedValue><name>d</name><value>9</value></enumeratedValue></enumeratedValues></field></fields>")))
d = Process.from_xml_str(x).convert_processed_device_to_svd_device()
assert len(d.peripherals[0].registers_clusters[0].fields[0].enumerated_value_containers) == 1
''')
add("c06-stack","C06",[("resolve/resolver.py",'''        for placeholder in list(self._resolver_graph.get_placeholders()):  # copy to avoid modifying list while iter.
            self._resolve_placeholder(placeholder)
''','''        for placeholder in sorted(self._resolver_graph.get_placeholders(), key=lambda p: p.derive_path)[:64]:
            self._resolve_placeholder(placeholder)
''')],"more than 64 derivations waiting","documents with many pending derivations are refused depending on their names",'''
regs = "".join(register(f"X{i}", 4 * i, attr=' derivedFrom="Z%02d"' % i) for i in range(80)) + "".join(register("Z%02d" % i, 0x400 + 4 * i) for i in range(80))
hold = "".join(register(f"Y{i}", 0x800 + 4 * i, attr=f' derivedFrom="A{i}"') for i in range(70))
base = "".join(register(f"A{i}", 0xc00 + 4 * i, attr=f' derivedFrom="M{i}"') for i in range(70)) + "".join(register(f"M%s", 0x1000, before="<dim>70</dim><dimIncrement>4</dimIncrement>") for i in range(1))
assert len(process(device(peripheral(regs + hold + base))).peripherals[0].registers_clusters) == 160 + 70 + 70 + 70
''')
