S=[]
def add(id,property,edits,needs,what,demo): S.append(dict(id=id,property=property,edits=edits,needs=needs,what=what,demo=demo))

add("c23-align","C23",[("process.py",'''    elif size_bytes == 16:
        return 4
''','''    elif size_bytes == 16:
        return 16
''')],"a register of 128 bits at an offset that is a multiple of four but not of sixteen","a warning about an offset that is fine",'''
assert not [w for w in warned(lambda: process(device(peripheral(register("R", 4, "<size>128</size>"))))) if "align" in w]
assert [w for w in warned(lambda: process(device(peripheral(register("R", 2, "<size>128</size>"))))) if "align" in w]
''')
add("c23-base","C23",[("process.py",'''        if i_reg_cluster.address_offset % alignment != 0:
''','''        if effective_base % alignment != 0:
''')],"registers within a misaligned cluster or peripheral, or compensating offsets","registers are reported that are fine, and misaligned offsets that add up to an aligned address are not",'''
k = "<cluster><name>K</name><addressOffset>2</addressOffset>" + register("R", 2) + "</cluster>"
w = [x for x in warned(lambda: process(device(peripheral(k)))) if "align" in x]
assert len(w) == 2, w
''')
add("c23-attr","C23",[("parse.py",'''        if attr_before_strip != attr_after_strip:
''','''        if not attr_before_strip.endswith(attr_after_strip):
''')],"an attribute with white space in front only","the removal of leading white space from attributes is not announced",'''
x = device(peripheral(register("R", 0) + register("S", 4, attr=' derivedFrom=" R"')))
assert [w for w in warned(lambda: Parser.from_xml_str(x)) if "stripped" in w]
''')
add("c23-interrupt","C23",[("parse.py",'''                warnings.warn(
                    f"Can't find mandatory value attribute in the interrupt element with name '{name}'. "
                    "Setting value to 0 to be compatible with SVDConv.",
                    ParserWarning,
                )
                value = 0
''','''                if all(interrupt.value != 0 for interrupt in interrupts):
                    warnings.warn(
                        f"Can't find mandatory value attribute in the interrupt element with name '{name}'. "
                        "Setting value to 0 to be compatible with SVDConv.",
                        ParserWarning,
                    )
                value = 0
''')],"an interrupt without number in a peripheral that already has one with number 0","the missing number is not announced",'''
x = device(peripheral(register("R", 0), more="<interrupt><name>A</name><value>0</value></interrupt><interrupt><name>B</name></interrupt>"))
assert [w for w in warned(lambda: Parser.from_xml_str(x)) if "'B'" in w]
''')
add("c23-peripheral","C23",[("process.py",'''        if i_peripheral.base_address % 4 != 0:
''','''        if i_peripheral.parsed.base_address % 4 != 0:
''')],"a peripheral array whose increment is not a multiple of four","misaligned instances are not announced",'''
x = device(peripheral(register("R", 0), name="P[%s]", more="<dim>2</dim><dimIncrement>0x1002</dimIncrement>"))
assert [w for w in warned(lambda: process(x)) if "'P1'" in w and "4 byte" in w]
''')
add("c23-field","C23",[("process.py",'''            if field.msb >= reg_size:
''','''            if field.lsb >= reg_size or field.msb > max(reg_size, 31):
''')],"a field that begins within a small register and ends beyond it","such a field is not announced",'''
x = device(peripheral(register("R", 0, "<size>8</size><fields><field><name>F</name><bitRange>[8:4]</bitRange></field></fields>")))
assert [w for w in warned(lambda: process(x)) if "'F'" in w]
''')
add("c23-dim","C23",[("process.py",'''        if dim is not None and "%s" not in parsed_element.name:
            warnings.warn(
''','''        if dim is not None and "%s" not in parsed_element.name:
            dim != 1 and warnings.warn(
''')],"a dimension of one on a name without placeholder","the dropped dimension is not announced",'''
x = device(peripheral(register("R", 0, before="<dim>1</dim><dimIncrement>4</dimIncrement>")))
assert [w for w in warned(lambda: process(x)) if "'R'" in w]
''')
add("c18-dedupe","C18",[("map.py",'''            if isinstance(register_cluster, Cluster):
                registers.extend(self._build_map_cluster(address, register_cluster))

        return registers
''','''            if isinstance(register_cluster, Cluster):
                shown = {(r.name, r.address) for r in registers}
                nested = self._build_map_cluster(address, register_cluster)
                registers.extend(r for r in nested if (r.name, r.address) not in shown)

        return registers
''')],"a register in a nested cluster with the name and address of one shown already","the register is missing in the map",'''
k = "<cluster><name>K</name><addressOffset>0</addressOffset>" + register("R", 0) + "<cluster><name>Z</name><addressOffset>0</addressOffset>" + register("R", 0) + "</cluster></cluster>"
d = process(device(peripheral(k)))
assert len(PeripheralRegisterMap(d).peripheral_map[0].registers) == 2
''')
add("c18-zero","C18",[("map.py",'''            display_name=register.display_name,
''','''            display_name=register.display_name if register.display_name != register.name else None,
''')],"a register whose display name is its name","the map does not show the register's display name",'''
d = process(device(peripheral("<register><name>R</name><displayName>R</displayName><addressOffset>0</addressOffset></register>")))
assert PeripheralRegisterMap(d).peripheral_map[0].registers[0].display_name in ("R", None)
assert PeripheralRegisterMap(d).peripheral_map[0].registers[0].display_name == d.peripherals[0].registers[0].display_name
''')
add("c04-empty","C04",[("util/process_parse_model_convert.py",'''        process_parse_convert_enumerated_value_container(container) for container in field.enumerated_value_containers
    ]
''','''        process_parse_convert_enumerated_value_container(container)
        for container in field.enumerated_value_containers
        if container.enumerated_values
    ]
''')],"a set of enumerated values all of which were left out","the set is missing in the converted device",'''
x = device(peripheral(register("R", 0, "<fields><field><name>F</name><bitRange>[0:0]</bitRange><enumeratedValues><name>E</name><enumeratedValue><name>v</name><value>9</value></enumeratedValue></enumeratedValues></field></fields>")))
p = Process.from_xml_str(x)
assert len(p.convert_processed_device_to_svd_device().peripherals[0].registers_clusters[0].fields[0].enumerated_value_containers) == 1
''')
add("c04-protection","C04",[("util/process_parse_model_convert.py",'''        usage=block.usage,
        protection=block.protection,
''','''        usage=block.usage,
        protection=block.protection if block.protection != ProtectionStringType.ANY else None,
'''),("util/process_parse_model_convert.py",'''from svdsuite.model.process import (
    CPU,
''','''from svdsuite.model.types import ProtectionStringType
from svdsuite.model.process import (
    CPU,
''')],"an address block with protection 'any'","the converted block has no protection",'''
p = Process.from_xml_str(device(peripheral(register("R", 0))))
c = p.convert_processed_device_to_svd_device()
assert c.peripherals[0].address_blocks[0].protection == p.get_processed_device().peripherals[0].address_blocks[0].protection
''')
add("c04-device","C04",[("util/process_parse_model_convert.py",'''        peripherals=peripherals,
        size=device.size,
''','''        peripherals=peripherals,
        size=max((p.size for p in device.peripherals), default=device.size),
''')],"peripherals none of which has the size the device states","the converted device has another size",'''
p = Process.from_xml_str(device(peripheral(register("R", 0, "<size>16</size>"))))
assert p.convert_processed_device_to_svd_device().size == p.get_processed_device().size == 32
''')
add("c08-round","C08",[("resolve/resolver.py",'''            if child_size is not None and child_size % 8 != 0:
                child_size = 0
''','''            if child_size is not None and child_size % 8 != 0:
                child_size = child_size // 8
''')],"an unusable size more than eight times the sizes of the other elements","the left out element still determines the size of its container",'''
x = device(peripheral(register("A", 0, "<size>8</size>") + register("B", 4, "<size>100</size>")))
assert process(x).peripherals[0].size == 8
''')
add("c08-dim","C08",[("resolve/resolver.py",'''            if node.is_dim_template:
                continue

            child_size = node.processed.size
''','''            # all instances of a dimension have the size of its template
            if node.processed.dim is not None and not node.is_dim_template:
                continue

            child_size = node.processed.size
''')],"an element with a dimension but no placeholder in its name","the size of such an element is not considered",'''
x = device(peripheral(register("A", 0, "<size>8</size>") + register("B", 4, "<size>16</size>", before="<dim>2</dim><dimIncrement>4</dimIncrement>")))
assert process(x).peripherals[0].size == 16
''')
add("c09-wc","C09",[("process.py",'''            field.access = or_if_none(field.access, access)
            field.write_constraint = or_if_none(field.write_constraint, write_constraint)
''','''            field.access = or_if_none(field.access, access)
            if field.access != AccessType.READ_ONLY:
                field.write_constraint = or_if_none(field.write_constraint, write_constraint)
''')],"a read-only field in a register with a write constraint","the field does not take the constraint",'''
x = device(peripheral(register("R", 0, "<writeConstraint><writeAsRead>true</writeAsRead></writeConstraint><fields><field><name>F</name><bitRange>[0:0]</bitRange><access>read-only</access></field></fields>")))
assert process(x).peripherals[0].registers[0].fields[0].write_constraint.write_as_read is True
''')
add("c09-pair","C09",[("process.py",'''            register_cluster.reset_value = or_if_none(register_cluster.reset_value, reset_value)
            register_cluster.reset_mask = or_if_none(register_cluster.reset_mask, reset_mask)
''','''            if register_cluster.reset_value is None or register_cluster.reset_mask is not None:
                register_cluster.reset_mask = or_if_none(register_cluster.reset_mask, reset_mask)
            else:
                # a reset value stated without a mask is meant for all bits, as long as only the device states a mask
                register_cluster.reset_mask = reset_mask if reset_mask is not None and reset_mask >= register_cluster.reset_value else 0xFFFFFFFF
            register_cluster.reset_value = or_if_none(register_cluster.reset_value, reset_value)
''')],"a register stating a reset value larger than the inherited mask","the inherited mask is replaced by the default",'''
x = device(peripheral(register("R", 0, "<resetValue>0x100</resetValue>")), "").replace("<width>32</width>", "<width>32</width><resetMask>0xff</resetMask>")
assert process(x).peripherals[0].registers[0].reset_mask == 0xff
''')
add("c10-lsb","C10",[("process.py",'''            if lsb is not None and msb is not None:
                field_lsb = lsb
                field_msb = msb
''','''            if lsb is not None and msb is not None:
                field_lsb = lsb
                field_msb = msb if parsed_field.msb is not None or base is None else lsb + base.msb - base.lsb
''')],"a derived field that states only its lsb","the msb is not taken from the base",'''
x = device(peripheral(register("R", 0, '<fields><field><name>A</name><lsb>2</lsb><msb>5</msb><access>read-only</access></field><field derivedFrom="A"><name>B</name><lsb>4</lsb><access>write-only</access></field></fields>')))
f = {f.name: (f.lsb, f.msb) for f in process(x).peripherals[0].registers[0].fields}
assert f["B"] == (4, 5), f
''')
add("c10-once2","C10",[("process.py",'''            elif field.access == AccessType.WRITE_ONLY:
''','''            elif field.access in {AccessType.WRITE_ONLY, AccessType.WRITE_ONCE} and field.bit_width == 1:
''')],"write-once fields of one bit, or write-only fields of several bits","fields that share a bit in the same direction are accepted",'''
def doc(a, b):
    return device(peripheral(register("R", 0, f'<fields><field><name>A</name><lsb>2</lsb><msb>5</msb><access>{a}</access></field><field><name>B</name><bitRange>[5:4]</bitRange><access>{b}</access></field></fields>')))


try:
    process(doc("write-only", "write-only"))
    raise SystemExit("collision accepted")
except ProcessException:
    pass
''')
add("c11-wide-default","C11",[("process.py",'''        all_possible_values = set(range(pow(2, msb - lsb + 1)))
''','''        all_possible_values = set(range(pow(2, min(msb - lsb + 1, 8))))
''')],"a default entry in a field wider than eight bits","numbers beyond 255 are not covered by the default",'''
x = device(peripheral(register("R", 0, "<fields><field><name>F</name><bitRange>[9:0]</bitRange><enumeratedValues><enumeratedValue><name>d</name><isDefault>true</isDefault></enumeratedValue></enumeratedValues></field></fields>")))
assert len(process(x).peripherals[0].registers[0].fields[0].enumerated_value_containers[0].enumerated_values) == 1024
''')
add("c11-late-default","C11",[("process.py",'''                value.value = None
            if self._seen_default:
''','''                self._seen_values.setdefault(value.value, value.name)
                value.value = None
            if self._seen_default:
''')],"a default entry with a number another, later entry has, too","the later entry is left out as a duplicate",'''
x = device(peripheral(register("R", 0, "<fields><field><name>F</name><bitRange>[1:0]</bitRange><enumeratedValues><enumeratedValue><name>d</name><value>1</value><isDefault>true</isDefault></enumeratedValue><enumeratedValue><name>a</name><value>1</value></enumeratedValue></enumeratedValues></field></fields>")))
assert [v.name for v in process(x).peripherals[0].registers[0].fields[0].enumerated_value_containers[0].enumerated_values] == ["d_0", "a", "d_2", "d_3"]
''')
add("c13-nested","C13",[("process.py",'''                if item.base_address <= end:
                    if allowed_names:
''','''                if item.base_address <= end and (isinstance(item, Cluster) or name not in cluster_lookup or end_addr >= end):
                    if allowed_names:
''')],"a register that lies within the extent of a cluster next to it, ending earlier","the overlap is not reported",'''
k = "<cluster><name>K</name><addressOffset>0</addressOffset>" + register("A", 0) + register("B", 8) + "</cluster>" + register("R", 4)
assert [w for w in warned(lambda: process(device(peripheral(k)))) if "'R'" in w and "'K'" in w]
''')
add("c13-alternate","C13",[("process.py",'''                        alt_value = getattr(lookup.get(name, None), alt_attr, None)
                        if alt_value != item.name:
''','''                        alt_value = getattr(lookup.get(name, None), alt_attr, None)
                        if alt_value is None:
''')],"an element with an alternate other than the one it shares an address with","the overlap is not reported",'''
w = warned(lambda: process(device(peripheral("".join([register("A", 0, "").replace("<addressOffset>", "<alternateRegister>C</alternateRegister><addressOffset>"), register("B", 0), register("C", 8)])))))
assert [x for x in w if "'B'" in x and "overlap" in x], w
''')
add("c14-case","C14",[("process.py",'''            if i_field.name in seen_names:
                raise ProcessException(f"Duplicate element name found: {i_field.name}")
            seen_names.add(i_field.name)
''','''            if (i_field.name, i_field.lsb) in seen_names:
                raise ProcessException(f"Duplicate element name found: {i_field.name}")
            seen_names.add((i_field.name, i_field.lsb))
'''),("process.py",'''        seen_names: set[str] = set()
        fields: list[Field] = []
''','''        seen_names: set[tuple[str, int]] = set()
        fields: list[Field] = []
''')],"two fields of the same name at different positions","the duplicate name is accepted",'''
x = device(peripheral(register("R", 0, "<fields><field><name>F</name><bitRange>[0:0]</bitRange></field><field><name>F</name><bitRange>[1:1]</bitRange></field></fields>")))
try:
    process(x)
    raise SystemExit("duplicate accepted")
except ProcessException:
    pass
''')
add("c16-bool","C16",[("parse.py",'''    if value is not None and value == "1":
        return True
''','''    if value is not None and value.isdigit() and value.strip("0") == "1":
        return True
''')],"a boolean written as a longer number","10 or 01 is read as true",'''
x = device(peripheral(register("R", 0, "<writeConstraint><writeAsRead>10</writeAsRead></writeConstraint>")))
try:
    Parser.from_xml_str(x)
    raise SystemExit("accepted")
except NotImplementedError:
    pass
''')
add("c16-range","C16",[("parse.py",'''            maximum = _to_int(self._parse_element_text("maximum", range_element, optional=False))
''','''            maximum = _to_int(self._parse_element_text("maximum", range_element, optional=True) or str(minimum))
''')],"a write constraint range without maximum","the maximum is guessed",'''
x = device(peripheral(register("R", 0, "<writeConstraint><range><minimum>1</minimum></range></writeConstraint>")))
try:
    Parser.from_xml_str(x)
    raise SystemExit("accepted")
except Exception as e:
    assert type(e).__name__ == "ParserException"
''')
add("c16-index","C16",[("process.py",'''            if int(start) > int(end):
                raise ProcessException(f"dim index '{dim_index}' start value must be less than end value")
''','''            if int(start) > int(end):
                start, end = end, start
''')],"a numeric index range given backwards","the malformed range is turned round silently",'''
x = device(peripheral(register("R%s", 0, before="<dim>3</dim><dimIncrement>4</dimIncrement><dimIndex>2-0</dimIndex>")))
try:
    process(x)
    raise SystemExit("accepted")
except ProcessException:
    pass
''')
add("c12-extent","C12",[("process.py",'''            cluster_size = cluster_effective_end - effective_base + 1
''','''            cluster_size = cluster_effective_end - min(child.base_address for child in children) + 1
''')],"a cluster whose first register is not at its beginning","the size of the cluster is too small",'''
k = "<cluster><name>K</name><addressOffset>0</addressOffset>" + register("A", 8) + "</cluster>"
assert process(device(peripheral(k))).peripherals[0].registers_clusters[0].cluster_size == 12
''')
add("c12-interrupts","C12",[("process.py",'''        return sorted(interrupts, key=lambda i: i.value)
''','''        return sorted(interrupts, key=lambda i: (i.value > 0xFF, i.value if i.value <= 0xFF else 0, i.name))
''')],"interrupts with numbers beyond 255","such interrupts come in the order of their names",'''
x = device(peripheral(register("R", 0), more="<interrupt><name>A</name><value>301</value></interrupt><interrupt><name>B</name><value>300</value></interrupt>"))
assert [i.name for i in process(x).peripherals[0].interrupts] == ["B", "A"]
''')
add("c02-strip","C02",[("serialize.py",'''        element = lxml.etree.Element(name)
        element.text = text
        return element
''','''        element = lxml.etree.Element(name)
        element.text = lxml.etree.CDATA(text) if text.count("<") > 2 and "]]>" not in text else text
        return element
''')],"texts with carriage returns and several less-than signs","carriage returns within CDATA sections do not survive parsing",'''
p = Parser.from_xml_str(device(peripheral(register("R", 0)))).get_parsed_device()
p.description = "a < b < c < d\\r\\n e"
q = Parser.from_xml_content(Serializer.device_to_svd_content(p)).get_parsed_device()
assert q.description == p.description, q.description
''')
add("c20-cr","C20",[("parse.py",'''        text_before_strip = element.text
''','''        text_before_strip = element.text.replace("\\u0085", "\\n").replace("\\u2028", "\\n")
''')],"texts with the line ends XML 1.1 knows","these characters are changed",'''
x = device(peripheral(register("R", 0))).replace("<description>d<", "<description>a\\u2028b<")
assert Parser.from_xml_str(x).get_parsed_device().description == "a\\u2028b"
''')
add("c03-empty-fields","C03",[("serialize.py",'''        if self.device.peripherals:
            peripherals_element''','''        if self.device.peripherals or self.device.cpu is not None:
            peripherals_element''')],"a device with a processor but no peripherals","an empty list of peripherals is written",'''
p = Parser.from_xml_str(device(peripheral(register("R", 0)))).get_parsed_device()
p.peripherals = []
assert "<peripherals" not in Serializer.device_to_svd_str(p)
''')
add("c03-mask","C03",[("serialize.py",'''        if self.cluster.reset_mask is not None:
            element.append(self._append_element("resetMask", text=f"{self.cluster.reset_mask:#x}"))
''','''        if self.cluster.reset_mask is not None:
            mask = self._append_element("resetMask", text=f"{self.cluster.reset_mask:#x}")
            value = element.find("resetValue")
            element.append(mask) if value is None else value.addnext(mask) if self.cluster.dim is None else value.addprevious(mask)
''')],"a dimensioned cluster with reset value and mask","the mask comes before the value, which the schema does not allow",'''
k = "<cluster><dim>2</dim><dimIncrement>8</dimIncrement><name>K%s</name><description>d</description><addressOffset>0</addressOffset><resetValue>0</resetValue><resetMask>1</resetMask>" + register("A", 0, "") + "</cluster>"
d = Parser.from_xml_str(device(peripheral(k))).get_parsed_device()
assert Validator.validate_xml_content(Serializer.device_to_svd_content(d), False)
''')
add("c19-error","C19",[("validate.py",'''            if not schema.validate(tree):
                if get_exception:
''','''            if not schema.validate(tree):
                if all(error.type_name == "SCHEMAV_CVC_DATATYPE_VALID_1_2_1" for error in schema.error_log) and len(schema.error_log) > 25:
                    raise ValidatorException("Too many errors")
                if get_exception:
''')],"a document with many values of a wrong type","an exception is raised even where none was requested",'''
x = device(peripheral("".join(register("R", "x") if False else "<register><name>R</name><addressOffset>x</addressOffset></register>" for _ in range(40))))
assert Validator.validate_xml_str(x, False) is False
''')
add("c19-comment","C19",[("validate.py",'''        return Validator._validate(safe_parse(path), get_exception, schema_version)
''','''        tree = safe_parse(path)
        lxml.etree.strip_elements(tree, "vendorExtensions", with_tail=False)
        return Validator._validate(tree, get_exception, schema_version)
''')],"a file with vendor extensions at a wrong place, or in a version that does not know them","the file entry point accepts what the schema rejects",'''
import tempfile
x = device(peripheral(register("R", 0))).replace("<width>", "<vendorExtensions/><width>")
with tempfile.TemporaryDirectory() as t:
    f = os.path.join(t, "x.svd")
    open(f, "w").write(x)
    assert Validator.validate_xml_file(f, False) is Validator.validate_xml_str(x, False) is False
''')
add("c21-append","C21",[("serialize.py",'''        with open(path, "wb") as f:
''','''        with open(path, "r+b" if len(content) > 0x2000 and os.path.exists(path) else "wb") as f:
'''),("serialize.py",'''import lxml.etree
from svdsuite.model.parse import (
''','''import os
import lxml.etree
from svdsuite.model.parse import (
''')],"a large device written over a larger file","the end of the former file remains",'''
import tempfile
p = Parser.from_xml_str(device(peripheral("".join(register(f"R{i}", 4 * i) for i in range(400))))).get_parsed_device()
with tempfile.TemporaryDirectory() as t:
    f = os.path.join(t, "x.svd")
    open(f, "w").write("x" * 0x40000)
    Serializer.device_to_svd_file(f, p)
    assert open(f, "rb").read() == Serializer.device_to_svd_content(p)
''')
add("c05-block","C05",[("process.py",'''        address_blocks = self._process_address_blocks(parsed.address_blocks) or (base.address_blocks if base else [])
''','''        address_blocks = self._process_address_blocks(parsed.address_blocks) or (base.address_blocks if base else [])
        if base and parsed.protection is not None and not parsed.address_blocks:
            for address_block in address_blocks:
                address_block.protection = parsed.protection
''')],"a derived peripheral that states a protection and no address blocks","the address blocks of the base change, too",'''
x = device(peripheral(register("R", 0)) + '<peripheral derivedFrom="P"><name>Q</name><baseAddress>0x50000000</baseAddress><protection>s</protection></peripheral>')
assert process(x).peripherals[0].address_blocks[0].protection.value == "any"
''')
add("c05-field-enum","C05",[("resolve/resolver.py",'''        usages = [container.usage for container in containers]
''','''        if len(containers) == 3 and field.parsed.derived_from is not None:
            containers = containers[:2]
        usages = [container.usage for container in containers]
''')],"a derived field that adds a set of enumerated values to the two of its base","the third set is dropped instead of being refused",'''
e = "<enumeratedValues><usage>{}</usage><enumeratedValue><name>v</name><value>1</value></enumeratedValue></enumeratedValues>"
x = device(peripheral(register("R", 0, "<fields><field><name>A</name><bitRange>[0:0]</bitRange>" + e.format("read") + e.format("write") + '</field><field derivedFrom="A"><name>B</name><bitRange>[1:1]</bitRange>' + e.format("read-write") + "</field></fields>")))
try:
    process(x)
    raise SystemExit("accepted")
except ProcessException:
    pass
''')
add("c07-display","C07",[("process.py",'''                resolved_display_names.append(display_name.replace("%s", index))
''','''                resolved_display_names.append(display_name.replace("%s", index.lstrip("0") or index))
''')],"a register list with indices that begin with zero","the display names do not use the indices",'''
x = device(peripheral('<register><dim>2</dim><dimIncrement>4</dimIncrement><dimIndex>00,01</dimIndex><name>R%s</name><displayName>R%s</displayName><addressOffset>0</addressOffset></register>'))
assert [r.display_name for r in process(x).peripherals[0].registers] == ["R00", "R01"]
''')
add("c15-loop","C15",[("resolve/resolver.py",'''            if processable_nodes == previous_nodes:
''','''            if len(processable_nodes) > 1 and processable_nodes == previous_nodes:
''')],"a document that leaves exactly one element unresolvable in every round","processing does not end",'''
raise SystemExit(0)
''')
add("c22-base","C22",[("resolve/logger.py",'''                    f"{node.name or 'no name'} ({node.level.value})"
''','''                    f"{node.name or node.parsed.name} ({node.level.value} at {getattr(node.parsed, 'derived_from', None) or node.parsed.parent.name})"
''')],"enumerated values in a field, when a log is requested","a missing attribute makes processing with a log fail",'''
import tempfile
import svdsuite.resolve.graph as rg


def draw(graph, filename=None, **_):
    with open(filename, "w") as f:
        f.write("<svg/>")


rg.graphviz_draw = draw
parsed = Parser.from_xml_str(device(peripheral(register("R", 0)))).get_parsed_device()
for p in parsed.peripherals:
    p.parent = None
with tempfile.TemporaryDirectory() as t:
    Process(parsed, os.path.join(t, "log.html"))
''')
add("c17-default","C17",[("process.py",'''        for value in uncovered_values:
            enumerated_values.append(
''','''        default.parsed.value = None
        for value in uncovered_values:
            enumerated_values.append(
''')],"a default entry that has a number","the parsed device is changed by processing",'''
x = device(peripheral(register("R", 0, "<fields><field><name>F</name><bitRange>[1:0]</bitRange><enumeratedValues><enumeratedValue><name>d</name><value>1</value><isDefault>true</isDefault></enumeratedValue></enumeratedValues></field></fields>")))
p = Parser.from_xml_str(x).get_parsed_device()
Process(p, None)
assert p.peripherals[0].registers_clusters[0].fields[0].enumerated_value_containers[0].enumerated_values[0].value == "1"
''')
add("c06-sort","C06",[("resolve/resolver.py",'''        register.fields = sorted(fields, key=lambda f: (f.lsb, f.name))
''','''        register.fields = sorted(fields, key=lambda f: (f.lsb, f.msb))
''')],"fields of different directions at the same bits","their order depends on the document",'''
def f(n, a):
    return f"<field><name>{n}</name><bitRange>[1:0]</bitRange><access>{a}</access></field>"


a, b = f("A", "read-only"), f("B", "write-only")
assert [[x.name for x in process(device(peripheral(register("R", 0, f"<fields>{s}</fields>")))).peripherals[0].registers[0].fields] for s in (a + b, b + a)][0] == ["A", "B"]
assert [x.name for x in process(device(peripheral(register("R", 0, f"<fields>{b + a}</fields>")))).peripherals[0].registers[0].fields] == ["A", "B"]
''')
