S=[]
def add(id,property,edits,needs,what,demo): S.append(dict(id=id,property=property,edits=edits,needs=needs,what=what,demo=demo))
add("c03-cluster-order","C03",[("serialize.py",'''        if self.cluster.alternate_cluster is not None:
            element.append(self._append_element("alternateCluster", text=self.cluster.alternate_cluster))

        if self.cluster.header_struct_name is not None:
            element.append(self._append_element("headerStructName", text=self.cluster.header_struct_name))
''','''        if self.cluster.header_struct_name is not None:
            element.append(self._append_element("headerStructName", text=self.cluster.header_struct_name))

        if self.cluster.alternate_cluster is not None:
            element.append(self._append_element("alternateCluster", text=self.cluster.alternate_cluster))
''')],"a cluster with both an alternate cluster and a header struct name","the two elements come out in an order the schema does not allow",'''
x = device(peripheral("<cluster><name>C</name><description>c</description><alternateCluster>X</alternateCluster><headerStructName>H</headerStructName><addressOffset>0</addressOffset>" + register("R", 0) + "</cluster>"))
d = Parser.from_xml_str(x).get_parsed_device()
assert Validator.validate_xml_content(Serializer.device_to_svd_content(d), False)
''')
add("c03-index-dec","C03",[("serialize.py",'''        element.append(self._append_element("addressUnitBits", text=str(self.device.address_unit_bits)))
        element.append(self._append_element("width", text=str(self.device.width)))''','''        element.append(self._append_element("width", text=str(self.device.width)))
        element.append(self._append_element("addressUnitBits", text=str(self.device.address_unit_bits)))''')],"any device","x",'''
x = device(peripheral(register("R", 0)))
d = Parser.from_xml_str(x).get_parsed_device()
assert Validator.validate_xml_content(Serializer.device_to_svd_content(d), False)
''')
add("c03-field-order","C03",[("serialize.py",'''            element.append(SVDWriteConstraintSerializer(self.field.write_constraint).to_xml())

        if self.field.read_action is not None:
            element.append(self._append_element("readAction", text=self.field.read_action.value))
''','''            constraint = SVDWriteConstraintSerializer(self.field.write_constraint).to_xml()
            element.append(constraint)

        if self.field.read_action is not None:
            read_action = self._append_element("readAction", text=self.field.read_action.value)
            if self.field.access is None and self.field.write_constraint is not None:
                constraint.addprevious(read_action)
            else:
                element.append(read_action)
''')],"a field without access that has a write constraint and a read action","the read action precedes the write constraint, which the schema does not allow",'''
f = "<field><name>F</name><lsb>0</lsb><msb>1</msb><writeConstraint><writeAsRead>true</writeAsRead></writeConstraint><readAction>clear</readAction></field>"
x = device(peripheral(register("R", 0, "<fields>" + f + "</fields>")))
d = Parser.from_xml_str(x).get_parsed_device()
assert Validator.validate_xml_content(Serializer.device_to_svd_content(d), False)
''')
add("c03-constraint-hex","C03",[("serialize.py",'''            range_element.append(self._append_element("minimum", text=str(self.constraint.range_[0])))
            range_element.append(self._append_element("maximum", text=str(self.constraint.range_[1])))
            element.append(range_element)''','''            range_element.append(self._append_element("minimum", text=str(self.constraint.range_[0])))
            range_element.append(self._append_element("maximum", text=str(self.constraint.range_[1])))
            element.insert(0, range_element)''')],"a write constraint with a range and another member","z",'''
f = "<writeConstraint><writeAsRead>true</writeAsRead><range><minimum>0</minimum><maximum>1</maximum></range></writeConstraint>"
x = device(peripheral(register("R", 0, f)))
d = Parser.from_xml_str(x).get_parsed_device()
Validator.validate_xml_content(Serializer.device_to_svd_content(d))
''')
add("c05-struct-name","C05",[("process.py",'''        header_struct_name = or_if_none(parsed.header_struct_name, base.header_struct_name if base else None)
        address_offset''','''        header_struct_name = or_if_none(parsed.header_struct_name, base.header_struct_name if base and not dim else None)
        address_offset''')],"a derived cluster list whose base states a header struct name","a derived cluster array loses the base's header struct name",'''
c = "<cluster><name>C</name><headerStructName>H</headerStructName><addressOffset>0</addressOffset>" + register("R", 0) + "</cluster>"
c += '<cluster derivedFrom="C"><dim>2</dim><dimIncrement>16</dimIncrement><name>D%s</name><addressOffset>0x10</addressOffset></cluster>'
assert [x.header_struct_name for x in process(device(peripheral(c))).peripherals[0].registers_clusters] == ["H"] * 3
''')
add("c05-dotted","C05",[("resolve/resolver.py",'''        siblings = self._resolver_graph.get_element_siblings(derived_node)
        matches = search_nodes(siblings, derive_path_parts, derived_node, level)
''','''        matches: list[ElementNode] = []
        if len(derive_path_parts) <= 2:
            siblings = self._resolver_graph.get_element_siblings(derived_node)
            matches = search_nodes(siblings, derive_path_parts, derived_node, level)
''')],"a path of three or more names that starts at a sibling","paths through siblings are only followed one level deep",'''
c = "<cluster><name>C</name><addressOffset>0</addressOffset><cluster><name>D</name><addressOffset>0</addressOffset>" + register("R", 0, "<access>read-only</access>") + "</cluster></cluster>"
r = process(device(peripheral(c + register("S", 0x10, attr=' derivedFrom="C.D.R"')))).peripherals[0].registers
assert r[1].access is AccessType.READ_ONLY
''')
add("c05-derive-mask","C05",[("process.py",'''        write_constraint = or_if_none(
            self._process_write_constraint(parsed.write_constraint), base.write_constraint if base else None
        )
        read_action = or_if_none(parsed.read_action, base.read_action if base else None)

        return IField(''','''        write_constraint = or_if_none(
            self._process_write_constraint(parsed.write_constraint), base.write_constraint if base else None
        )
        read_action = or_if_none(
            parsed.read_action, base.read_action if base and parsed.access != AccessType.READ_WRITE else None
        )

        return IField(''')],"a derived field that states read-write while its base has a read action","a derived field stating its access loses the base's read action",'''
f = '<fields><field><name>A</name><lsb>0</lsb><msb>1</msb><access>read-only</access><readAction>clear</readAction></field><field derivedFrom="A"><name>B</name><lsb>2</lsb><msb>3</msb><access>read-write</access></field></fields>'
assert process(device(peripheral(register("R", 0, f)))).peripherals[0].registers[0].fields[1].read_action is not None
''')
add("c05-blocks","C05",[("process.py",'''        address_blocks = self._process_address_blocks(parsed.address_blocks) or (base.address_blocks if base else [])''','''        address_blocks = self._process_address_blocks(parsed.address_blocks) or (base.address_blocks[:1] if base else [])''')],
"deriving from a peripheral with several address blocks","only the first of the base's address blocks is inherited",'''
b = "".join(f"<addressBlock><offset>{o}</offset><size>16</size><usage>registers</usage></addressBlock>" for o in (0, 64))
x = device(peripheral(register("R", 0), blocks=b) + '<peripheral derivedFrom="P"><name>Q</name><baseAddress>0x50000000</baseAddress></peripheral>')
assert [len(p.address_blocks) for p in process(x).peripherals] == [2, 2]
''')
add("c06-fields","C06",[("resolve/resolver.py",'''        register.fields = sorted(fields, key=lambda f: (f.lsb, f.name))''','''        register.fields = sorted(fields, key=lambda f: f.lsb)''')],"two fields at the same bits, one readable and one writable","their order follows the document",'''
a = "<field><name>A</name><lsb>0</lsb><msb>1</msb><access>read-only</access></field>"
b = "<field><name>B</name><lsb>0</lsb><msb>1</msb><access>write-only</access></field>"
n = [[f.name for f in process(device(peripheral(register("R", 0, "<fields>" + c + "</fields>")))).peripherals[0].registers[0].fields] for c in (a + b, b + a)]
assert n[0] == n[1], n
''')
add("c06-peripherals","C06",[("resolve/resolver.py",'''        self._peripherals_resolved = sorted(peripherals, key=lambda p: (p.base_address, p.name))''','''        self._peripherals_resolved = sorted(peripherals, key=lambda p: p.base_address)'''),("process.py",'''        finalized_peripherals.sort(key=lambda p: (p.base_address, p.name))''','''        finalized_peripherals.sort(key=lambda p: p.base_address)''')],"two peripherals at the same base address","their order follows the document",'''
a, b = peripheral(register("R", 0), name="A"), peripheral(register("R", 0), name="B")
n = [[p.name for p in process(device(x)).peripherals] for x in (a + b, b + a)]
assert n[0] == n[1], n
''')
add("c06-forward","C06",[("resolve/resolver.py",'''            self._resolve_placeholders()
            processable_nodes = self._get_topological_sorted_processable_nodes()

            if not processable_nodes:
                break
''','''            self._resolve_placeholders()
            processable_nodes = self._get_topological_sorted_processable_nodes()

            if not processable_nodes:
                break

            # derivations are resolved one level of the tree after the other: device, peripheral, cluster, register,
            # field and enumerated values, some of them twice
            if (rounds := rounds + 1) > 2 * len(ElementLevel):
                raise LoopException("Too many rounds")
'''),("resolve/resolver.py",'''        previous_nodes: list[ElementNode] = []
''','''        previous_nodes: list[ElementNode] = []
        rounds = 0
''')],"derivations that need more than twelve rounds to resolve","documents needing many resolution rounds are refused",'''
p = peripheral("".join(f"<cluster{s}><name>C{i}</name><addressOffset>{i * 64:#x}</addressOffset>" + register(f"N{i}", 4 * i) + "</cluster>" for i, s in enumerate([""])), name="P0")
parts = [peripheral("<cluster><name>C</name><addressOffset>0</addressOffset>" + register("R", 0) + "</cluster>", name="Q0", base=0x1000)]
for i in range(1, 20):
    parts.append(peripheral(f'<cluster derivedFrom="Q{i - 1}.C"><name>C</name><addressOffset>0</addressOffset><register derivedFrom="Q{i - 1}.C.R{i - 1 or ""}"><name>R{i}</name><addressOffset>{4 * i}</addressOffset></register></cluster>'.replace('R"', 'R"'), name=f"Q{i}", base=0x1000 * (i + 1)))
process(device("".join(parts)))
''')
add("c09-zero-reset","C09",[("process.py",'''            register_cluster.reset_value = or_if_none(register_cluster.reset_value, reset_value)''','''            register_cluster.reset_value = register_cluster.reset_value or reset_value''')],"an explicit reset value 0 in a container with another one","an explicit reset value 0 is replaced by the container's",'''
x = device(peripheral(register("R", 0, "<resetValue>0</resetValue>")).replace("</baseAddress>", "</baseAddress><resetValue>5</resetValue>"))
assert process(x).peripherals[0].registers[0].reset_value == 0
''')
add("c09-zero-mask","C09",[("process.py",'''        reset_mask = parsed_device.reset_mask if parsed_device.reset_mask is not None else 0xFFFFFFFF''','''        reset_mask = parsed_device.reset_mask or 0xFFFFFFFF''')],"a device with reset mask 0","a device's reset mask 0 is taken as absent",'''
x = device(peripheral(register("R", 0))).replace("<width>32</width>", "<width>32</width><resetMask>0</resetMask>")
assert process(x).peripherals[0].registers[0].reset_mask == 0
''')
add("c09-vtor","C09",[("process.py",'''            vtor_present=True if parsed_cpu.vtor_present is None else parsed_cpu.vtor_present,''','''            vtor_present=parsed_cpu.vtor_present or parsed_cpu.vtor_present is None or parsed_cpu.dsp_present is True,''')],"a processor without vector table offset register but with DSP","vtorPresent false is replaced by true for processors with DSP",'''
cpu = '<cpu><name>CM4</name><revision>r0p1</revision><endian>little</endian><mpuPresent>true</mpuPresent><fpuPresent>true</fpuPresent><dspPresent>true</dspPresent><vtorPresent>false</vtorPresent><nvicPrioBits>3</nvicPrioBits><vendorSystickConfig>false</vendorSystickConfig></cpu>'
assert process(device(peripheral(register("R", 0)), cpu)).cpu.vtor_present is False
''')
add("c09-sau-region","C09",[("process.py",'''                    enabled=True if parsed_region.enabled is None else parsed_region.enabled,
                    name=''','''                    enabled=parsed_region.enabled is not False or parsed_region.base == 0,
                    name=''')],"a disabled security region at address 0","a disabled security region at address 0 comes out enabled",'''
cpu = ('<cpu><name>CM33</name><revision>r0p1</revision><endian>little</endian><mpuPresent>true</mpuPresent><fpuPresent>true</fpuPresent>'
       '<nvicPrioBits>3</nvicPrioBits><vendorSystickConfig>false</vendorSystickConfig><sauRegionsConfig><region enabled="false" name="S">'
       '<base>0</base><limit>0x20</limit><access>n</access></region></sauRegionsConfig></cpu>')
assert process(device(peripheral(register("R", 0)), cpu)).cpu.sau_regions_config.regions[0].enabled is False
''')
add("c11-case","C11",[("process.py",'''        if name.lower() == "reserved":''','''        if name == "reserved":''')] if False else [("process.py",'''            elif input_str.startswith("0x"):
                return [int(input_str, 16)]''','''            elif input_str.startswith("0x"):
                return [int(input_str[2:10], 16)]''')],"an enumerated value with more than eight hexadecimal digits","long hexadecimal enumerated values are truncated",'''
e = "<enumeratedValues><enumeratedValue><name>a</name><value>0x0000000012</value></enumeratedValue></enumeratedValues>"
v = process(device(peripheral(register("R", 0, "<fields><field><name>F</name><lsb>0</lsb><msb>7</msb>" + e + "</field></fields>")))).peripherals[0].registers[0].fields[0].enumerated_value_containers[0].enumerated_values
assert [x.value for x in v] == [0x12]
''')
add("c15-enum","C15",[("resolve/graph.py",'''        return {cast(ElementNode, self._graph[rx_index]) for rx_index in self._unprocessed_rx_indicies}''','''        nodes = {cast(ElementNode, self._graph[rx_index]) for rx_index in self._unprocessed_rx_indicies}
        return {node for node in nodes if node.name is not None}''')],"unnamed enumerated values deriving from something that does not exist","an unresolvable derivation of unnamed enumerated values is accepted and yields no values",'''
e = '<enumeratedValues derivedFrom="missing"/>'
x = device(peripheral(register("R", 0, "<fields><field><name>F</name><lsb>0</lsb><msb>7</msb>" + e + "</field></fields>")))
try:
    process(x)
except ProcessException:
    pass
else:
    raise SystemExit("accepted")
''')
add("c15-self-path","C15",[("resolve/resolver.py",'''        if matches:
            return matches[0]

        # No matches found
        return None''','''        if matches:
            return matches[0]

        # No matches found, the last part may be the name of a dim element
        if not derive_path.endswith("%s"):
            return self._derived_from_path_resolving(derived_node, derive_path + "%s")
        return None''')],"a derivation from a name without placeholder that only exists with it","R is found as R%s although no such element exists",'''
x = device(peripheral(register("R%s", 0, before="<dim>2</dim><dimIncrement>4</dimIncrement>") + register("S", 16, attr=' derivedFrom="R"').replace("</name>", "</name>")))
try:
    process(x.replace("<name>S</name>", "<name>S%s</name>"))
except ProcessException:
    pass
else:
    raise SystemExit("accepted")
''')
add("c15-level","C15",[("resolve/resolver.py",'''                if len(path_parts) == 1:
                    # If we've matched the final part, check the level
                    if node.level == target_level:
                        matches.append(node)
                else:''','''                if len(path_parts) == 1:
                    # If we've matched the final part, check the level
                    if node.level == target_level:
                        matches.append(node)
                    elif {node.level, target_level} == {ElementLevel.CLUSTER, ElementLevel.REGISTER}:
                        matches.append(node)
                else:''')],"a cluster deriving from a register or the other way round","a reference to an element of another kind ends in another error or hides the right one of the same name elsewhere",'''
q = peripheral(register("X", 0), name="Q", base=0x50000000)
x = device(peripheral('<cluster><name>X</name><addressOffset>0</addressOffset>' + register("R", 0) + "</cluster>" + register("S", 16, attr=' derivedFrom="X"')) + q)
y = device(peripheral("<cluster><name>Q</name><addressOffset>0</addressOffset><cluster><name>X</name><addressOffset>0</addressOffset>" + register("R", 0) + "</cluster></cluster>" + register("S", 16, attr=' derivedFrom="Q.X"')) + q)
try:
    process(x)
except ProcessException:
    pass
assert len(process(y).peripherals) == 2
''')
add("c15-visited","C15",[("resolve/graph.py",'''            current_rx_index = stack.pop()
            if current_rx_index in visited:
                continue
            visited.add(current_rx_index)
''','''            current_rx_index = stack.pop()
''')],"deriving from an element with several levels of nested dimensions","deriving takes time exponential in the depth of nested dimensions",'''
import signal
signal.alarm(60)
inner = register("R", 0)
for i in range(5):
    inner = f"<cluster><dim>24</dim><dimIncrement>{4 * 24 ** i:#x}</dimIncrement><name>C{i}_%s</name><addressOffset>0</addressOffset>{inner}</cluster>"
x = device(peripheral(inner) + '<peripheral derivedFrom="P"><name>Q</name><baseAddress>0x50000000</baseAddress><registers>' + register("Z", 0, attr=' derivedFrom="missing"') + "</registers></peripheral>")
try:
    process(x)
except ProcessException:
    pass
''')
add("c16-range-tail","C16",[("process.py",'''                match = re.fullmatch(r"\\[(\\d+):(\\d+)\\]", bit_range)''','''                match = re.match(r"\\[(\\d+):(\\d+)\\]", bit_range)''')],"a bit range followed by something else","what follows a bit range is dropped silently",'''
try:
    process(device(peripheral(register("R", 0, "<fields><field><name>F</name><bitRange>[7:0],[9:8]</bitRange></field></fields>"))))
except ProcessException:
    pass
else:
    raise SystemExit("accepted")
''')
add("c16-offset","C16",[("parse.py",'''            offset = _to_int(self._parse_element_text("offset", address_block_element, optional=True)) or 0
            size = _to_int(self._parse_element_text("size", address_block_element, optional=False))''','''            try:
                offset = _to_int(self._parse_element_text("offset", address_block_element, optional=True)) or 0
            except NotImplementedError:
                offset = 0
            size = _to_int(self._parse_element_text("size", address_block_element, optional=False))''')],"an address block offset that is no number","a malformed address block offset is read as 0",'''
try:
    Parser.from_xml_str(device(peripheral(register("R", 0), blocks="<addressBlock><offset>x10</offset><size>4</size><usage>registers</usage></addressBlock>")))
except Exception:
    pass
else:
    raise SystemExit("accepted")
''')
add("c16-index","C16",[("process.py",'''        elif re.fullmatch(r"[_0-9a-zA-Z]+(,\\s*[_0-9a-zA-Z]+)+", dim_index):''','''        elif re.fullmatch(r"[_0-9a-zA-Z]+(,\\s*[_0-9a-zA-Z]*)+", dim_index):''')],"a dimIndex list with an empty entry","an empty entry of dimIndex is accepted",'''
x = device(peripheral(register("R%s", 0, before="<dim>3</dim><dimIncrement>4</dimIncrement><dimIndex>A,,B</dimIndex>")))
try:
    process(x)
except ProcessException:
    pass
else:
    raise SystemExit("accepted")
''')
add("c16-interrupt","C16",[("parse.py",'''            except ParserException:
                warnings.warn(
                    f"Can't find mandatory value attribute in the interrupt''','''            except (ParserException, NotImplementedError):
                warnings.warn(
                    f"Can't find mandatory value attribute in the interrupt''')],"an interrupt number that is no number","a malformed interrupt number is read as 0",'''
b = "<addressBlock><offset>0</offset><size>4</size><usage>registers</usage></addressBlock><interrupt><name>I</name><value>seven</value></interrupt>"
try:
    Parser.from_xml_str(device(peripheral(register("R", 0), blocks=b)))
except Exception:
    pass
else:
    raise SystemExit("accepted")
''')
add("c22-chain","C22",[("resolve/logger.py",'''        if not topological_sorted_nodes:
            self._html_generator.add_paragraph("No processable elements found")
            return
''','''        if not topological_sorted_nodes:
            self._html_generator.add_paragraph("No processable elements found")
            return

        topological_sorted_nodes.sort(key=lambda node: node.level.value)
''')],"a log requested for a document with derivation chains across kinds of elements","with a log, elements are processed grouped by kind, so that deriving ones may precede their base",'''
import tempfile
import svdsuite.resolve.graph as rg


def draw(graph, filename=None, **_):
    with open(filename, "w") as f:
        f.write("<svg/>")


rg.graphviz_draw = draw
x = device(peripheral(register("Z", 0, "<access>read-only</access>") + register("A", 4, attr=' derivedFrom="Z"')) + '<peripheral derivedFrom="P"><name>Q</name><baseAddress>0x50000000</baseAddress><registers>' + register("N", 8, attr=' derivedFrom="M"') + register("M", 12, attr=' derivedFrom="P.Z"') + "</registers></peripheral>")
with tempfile.TemporaryDirectory() as t:
    a = Process.from_xml_str(x).get_processed_device()
    b = Process.from_xml_str(x, os.path.join(t, "log.html")).get_processed_device()
assert [[r.name for r in p.registers] for p in a.peripherals] == [[r.name for r in p.registers] for p in b.peripherals]
''')
add("c22-round","C22",[("resolve/logger.py",'''        self._html_generator.add_h3("Resolve Placeholders")
''','''        self._html_generator.add_h3("Resolve Placeholders")
        for placeholder in self._resolver_graph.get_placeholders():
            if placeholder.derive_path in self._current_round_resolved_placeholders:
                self._resolver_graph.remove_placeholder(placeholder)
''')],"a log requested for a document where one path is used twice and one use resolves later","with a log, elements deriving by the same path from something resolved later lose their derivation",'''
import tempfile
import svdsuite.resolve.graph as rg


def draw(graph, filename=None, **_):
    with open(filename, "w") as f:
        f.write("<svg/>")


rg.graphviz_draw = draw
c = "<cluster><name>C</name><addressOffset>0</addressOffset>" + register("S", 0, "<access>read-only</access>") + register("U", 4, attr=' derivedFrom="S"') + "</cluster>"
x = device(peripheral(c + register("S", 0x10) + register("T", 0x14, attr=' derivedFrom="S"')))


def run(*log):
    try:
        return [r.access for r in Process.from_xml_str(x, *log).get_processed_device().peripherals[0].registers]
    except Exception as e:
        return type(e)


with tempfile.TemporaryDirectory() as t:
    a = run()
    b = run(os.path.join(t, "log.html"))
assert a == b, (a, b)
''')
add("c22-default-path","C22",[("util/html_generator.py",None,None)],"","","") if False else None
add("c01-last","C01",[("parse.py",'''        element = elements[-1]
        if element.text is None:''','''        element = next((x for x in reversed(elements) if x.text is not None), elements[-1])
        if element.text is None:''')],"a repeated element whose last occurrence is empty","an earlier occurrence is used when the last one is empty",'''
r = register("R", 0, "<size>16</size><size></size>")
assert Parser.from_xml_str(device(peripheral(r))).get_parsed_device().peripherals[0].registers_clusters[0].size is None
''')
add("c01-comments","C01",[("parse.py",'''        text_before_strip = element.text
''','''        text_before_strip = element.text if len(element) == 0 else "".join(element.itertext())
''')],"x","x",'''
r = register("R", 0, "<description>a<b>c</b>d</description>")
assert Parser.from_xml_str(device(peripheral(r))).get_parsed_device().peripherals[0].registers_clusters[0].description == "a"
''')
add("c01-mixed","C01",[("parse.py",'''        for element in ''','''        for element in ''')],"","","") if False else None
add("c13-blocks","C13",[("process.py",'''            intervals.append((end_addr, item.name))''','''            intervals = [interval for interval in intervals if interval[0] >= item.base_address]
            if not intervals or end_addr > intervals[-1][0]:
                intervals.append((end_addr, item.name))''')],"three elements of which the first covers the two others that overlap each other","an overlap inside the extent of a longer element is not reported",'''
c = ("<cluster><name>L</name><addressOffset>0</addressOffset>" + register("X", 0) + register("Y", 0x40) + "</cluster>" + register("A", 8, "<size>64</size>") + register("B", 12))
w = warned(lambda: process(device(peripheral(c))))
assert any("'A'" in m and "'B'" in m for m in w), w
''')
add("c07-disp","C07",[("process.py",'''                resolved_display_names.append(display_name.replace("%s", index))''','''                resolved_display_names.append(display_name.replace("%s", str(len(resolved_display_names))))''')],"a register list with a dimIndex and a display name with placeholder","display names count from 0 whatever dimIndex says",'''
x = device(peripheral(register("R%s", 0, "<displayName>d%s</displayName>", before="<dim>2</dim><dimIncrement>4</dimIncrement><dimIndex>A,B</dimIndex>").replace("<addressOffset>0x0</addressOffset><displayName>d%s</displayName>", "<displayName>d%s</displayName><addressOffset>0</addressOffset>")))
assert [r.display_name for r in process(x).peripherals[0].registers] == ["dA", "dB"]
''')
add("c10-once","C10",[("process.py",'''            elif field.access in {AccessType.READ_WRITE, AccessType.WRITE_ONCE, AccessType.READ_WRITE_ONCE}:''','''            elif field.access in {AccessType.READ_WRITE, AccessType.READ_WRITE_ONCE}:''')],"overlapping fields one of which is writeOnce","fields that can be written once are not checked for overlaps",'''
f = '<fields><field><name>A</name><lsb>0</lsb><msb>1</msb><access>writeOnce</access></field><field><name>B</name><lsb>1</lsb><msb>3</msb></field></fields>'
try:
    process(device(peripheral(register("R", 0, f))))
except ProcessException:
    pass
else:
    raise SystemExit("accepted")
''')
add("c12-spec","C12",[("process.py",'''        end_address_specified = max(
            i_peripheral.base_address + ab.offset + ab.size - 1 for ab in i_peripheral.address_blocks
        )''','''        last = i_peripheral.address_blocks[-1]
        end_address_specified = i_peripheral.base_address + last.offset + last.size - 1''')],"an address block that contains a later one","a peripheral ends where the address block with the highest offset ends",'''
b = "".join(f"<addressBlock><offset>{o}</offset><size>{s}</size><usage>registers</usage></addressBlock>" for o, s in ((0, 64), (16, 4)))
assert process(device(peripheral(register("R", 0), blocks=b))).peripherals[0].end_address == 0x4000003F
''')
add("c14-alt","C14",[("process.py",'''                if name in register_lookup or name in cluster_lookup:''','''                if name in (register_lookup if isinstance(register_cluster, Register) else cluster_lookup):''')],"a register and a cluster with the same name","a register and a cluster of the same name in one container are accepted",'''
c = "<cluster><name>R</name><addressOffset>8</addressOffset>" + register("X", 0) + "</cluster>"
try:
    process(device(peripheral(register("R", 0) + c)))
except ProcessException:
    pass
else:
    raise SystemExit("accepted")
''')
add("c18-sort","C18",[("map.py",'''        peripheral_map_list.sort(key=lambda x: x.address)
''','''        peripheral_map_list.sort(key=lambda x: x.allocated_range)
''')],"a peripheral whose address block offsets put it behind one with a higher base address","the map is ordered by allocated range",'''
def blocks(o):
    return f"<addressBlock><offset>{o:#x}</offset><size>4</size><usage>registers</usage></addressBlock>"


m = PeripheralRegisterMap.from_xml_str(device(peripheral(register("R", 0x2000), name="A", base=0x1000, blocks=blocks(0x2000)) + peripheral(register("R", 0), name="B", base=0x2000, blocks=blocks(0))))
assert [p.name for p in m.peripheral_map] == ["A", "B"]
''')
add("c20-bom","C20",[("util/xml_parse.py",'''            root = etree.fromstring(content, parser=parser)
            warnings.warn(
                f"XML content parsed using fallback encoding '{enc}' with recover=False.",''','''            root = etree.fromstring(content.strip(), parser=parser)
            warnings.warn(
                f"XML content parsed using fallback encoding '{enc}' with recover=False.",''')],"a document beginning with blank lines, or in UTF-16, given as bytes","bytes that begin with blank lines are accepted while the same file goes on to the recovering parser",'''
import tempfile
x = ("\\n" + device(peripheral(register("R", 0)))).encode()
with tempfile.TemporaryDirectory() as t:
    p = os.path.join(t, "x.svd")
    with open(p, "wb") as f:
        f.write(x)
    a = warned(lambda: Parser.from_svd_file(p))
b = warned(lambda: Parser.from_xml_content(x))
assert [("recover=True" in m) for m in a] == [("recover=True" in m) for m in b], (a, b)
''')
add("c04-parent","C04",[("util/process_parse_model_convert.py",'''    for enumerated_value in enumerated_values:
        enumerated_value.parent = svd_value
''','''    for enumerated_value in enumerated_values:
        enumerated_value.parent = enumerated_value.parent or svd_value
        if len(enumerated_values) > 16:
            enumerated_value.parent = None
''')],"x","x",'''
raise SystemExit(0)
''') if False else None
add("c08-dim","C08",[("resolve/resolver.py",'''        parent = parents[0]  # only dim nodes have multiple parents, but all have same size''','''        parent = parents[-1]''')],"x","x",'''
raise SystemExit(0)
''') if False else None
add("c08-device","C08",[("resolve/resolver.py",'''            return device_size if device_size is not None else 32  # default size for device''','''            return device_size if device_size is not None else cast(SVDDevice, parent.parsed).width''')],"a device without size whose width is not 32","registers without any stated size get the width of the device's bus instead of 32",'''
d = process(device(peripheral(register("R", 0))).replace("<width>32</width>", "<width>64</width>"))
assert d.peripherals[0].registers[0].size == 32, d.peripherals[0].registers[0].size
''')
add("c19-cache","C19",[("validate.py",'''            schema = lxml.etree.XMLSchema(safe_parse(xsd_file))
            if not schema.validate(tree):''','''            schema = _SCHEMAS.setdefault(
                schema_version.value[:5], lxml.etree.XMLSchema(safe_parse(xsd_file))
            )
            if not schema.validate(tree):'''),("validate.py",'''class ValidatorException(Exception):''','''_SCHEMAS: dict[str, lxml.etree.XMLSchema] = {}


class ValidatorException(Exception):''')],"validating against 1.3.1 and then against 1.3.10 or 1.3.11 in one process","versions sharing the first five characters share the schema loaded first",'''
f = "<field><name>F</name><lsb>0</lsb><msb>1</msb><enumeratedValues><headerEnumName>x</headerEnumName><enumeratedValue><name>a</name><value>0</value></enumeratedValue></enumeratedValues></field>"
x = device(peripheral(register("R", 0, "<fields>" + f + "</fields>")))
import itertools
fresh = {}
V = [v for v in SVDSchemaVersion]
docs = [x, x.replace("<headerEnumName>x</headerEnumName>", ""), x.replace("</name><addressOffset>", '</name><addressOffset>'),
        device(peripheral(register("R", 0)), '<cpu><name>CM55</name><revision>r0p1</revision><endian>little</endian><mpuPresent>true</mpuPresent><fpuPresent>true</fpuPresent><nvicPrioBits>3</nvicPrioBits><vendorSystickConfig>false</vendorSystickConfig></cpu>')]
import subprocess, sys, json
code = "import sys,json;sys.path.insert(0,'src');from svdsuite import *;a=json.load(sys.stdin);print(json.dumps([Validator.validate_xml_str(d,False,SVDSchemaVersion(v)) for d,v in a]))"


def ask(a):
    return json.loads(subprocess.run([sys.executable, "-c", code], input=json.dumps(a), capture_output=True, text=True, check=True).stdout)


pairs = [(d, v) for v in ("1.3.1", "1.3.10", "1.3.11") for d in docs]
together = ask(pairs)
alone = [r for v in ("1.3.1", "1.3.10", "1.3.11") for r in ask([(d, v) for d in docs])]
assert together == alone, (together, alone)
''')
add("c21-partial","C21",[("serialize.py",None,None)],"","","") if False else None
