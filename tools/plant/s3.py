S=[]
def add(id,property,edits,needs,what,demo): S.append(dict(id=id,property=property,edits=edits,needs=needs,what=what,demo=demo))
add("c03-derived-list","C03",[("serialize.py",'''        if self.register.fields:
            fields_element''','''        if self.register.fields or (self.register.derived_from is not None and self.register.dim is not None):
            fields_element''')],"a derived register list without fields of its own","an empty list of fields is written, which the schema does not allow",'''
x = device(peripheral(register("R", 0) + '<register derivedFrom="R"><dim>2</dim><dimIncrement>4</dimIncrement><name>S%s</name><addressOffset>4</addressOffset></register>'))
d = Parser.from_xml_str(x).get_parsed_device()
assert Validator.validate_xml_content(Serializer.device_to_svd_content(d), False)
''')
add("c03-sau-order","C03",[("serialize.py",'''        element.append(self._append_element("base", text=f"{self.region.base:#x}"))
        element.append(self._append_element("limit", text=f"{self.region.limit:#x}"))''','''        bounds = sorted((self.region.base, self.region.limit))
        element.append(self._append_element("base" if bounds[0] == self.region.base else "limit", text=f"{bounds[0]:#x}"))
        element.append(self._append_element("limit" if bounds[0] == self.region.base else "base", text=f"{bounds[1]:#x}"))''')],"a security region whose limit is lower than its base","base and limit come out in an order the schema does not allow",'''
cpu = ('<cpu><name>CM33</name><revision>r0p1</revision><endian>little</endian><mpuPresent>true</mpuPresent><fpuPresent>true</fpuPresent>'
       '<nvicPrioBits>3</nvicPrioBits><vendorSystickConfig>false</vendorSystickConfig><sauRegionsConfig><region name="S">'
       '<base>0x20</base><limit>0x10</limit><access>n</access></region></sauRegionsConfig></cpu>')
x = device(peripheral(register("R", 0)), cpu)
d = Parser.from_xml_str(x).get_parsed_device()
assert Validator.validate_xml_content(Serializer.device_to_svd_content(d), False)
''')
add("c06-forward","C06",[("resolve/resolver.py",'''            self._resolve_placeholders()
            processable_nodes = self._get_topological_sorted_processable_nodes()

            if not processable_nodes:
                break
''','''            self._resolve_placeholders()
            processable_nodes = self._get_topological_sorted_processable_nodes()

            if not processable_nodes:
                break

            # derivations are resolved one level of the tree after the other: device, peripheral, cluster, register,
            # field and enumerated values, some of them twice
            if (rounds := rounds + 1) > 2 * len(ElementLevel):
                raise LoopException("Too many rounds")
'''),("resolve/resolver.py",'''        previous_nodes: list[ElementNode] = []
''','''        previous_nodes: list[ElementNode] = []
        rounds = 0
''')],"derivations that need more than twelve rounds to resolve","documents needing many resolution rounds are refused",'''
n = 24
k = register("R", 0)
for i in range(n):
    k = f"<cluster><name>K</name><addressOffset>0</addressOffset>{k}</cluster>"
parts = [k.replace("<name>K", "<name>X0", 1)]
for i in range(1, n):
    parts.append(f'<cluster derivedFrom="X{i - 1}.K"><name>X{i}</name><addressOffset>{8 * i}</addressOffset></cluster>')
assert len(process(device(peripheral("".join(parts)))).peripherals[0].registers) == n
''')
add("c22-temp","C22",[("resolve/graph.py",'''        with tempfile.NamedTemporaryFile(mode="w+", suffix=".svg") as temp_file:
''','''        with tempfile.NamedTemporaryFile(mode="w+", suffix=".svg", delete=self._graph.num_edges() < 64) as temp_file:
''')],"a log requested for a document of some size","pictures of larger graphs are left in the temporary folder",'''
import tempfile
import svdsuite.resolve.graph as rg


def draw(graph, filename=None, **_):
    with open(filename, "w") as f:
        f.write("<svg/>")


rg.graphviz_draw = draw
with tempfile.TemporaryDirectory() as t:
    tempfile.tempdir = t
    Process.from_xml_str(device(peripheral("".join(register(f"R{i}", 4 * i) for i in range(99)))), os.path.join(t, "log.html"))
    assert os.listdir(t) == ["log.html"], os.listdir(t)
''')
add("c22-suffix","C22",[("util/html_generator.py",'''        self._output_file = output_file
''','''        self._output_file = output_file if "." in output_file else f"{output_file}.html"
''')],"a log path without a dot","the log is written to another path than the requested one",'''
import tempfile
import svdsuite.resolve.graph as rg


def draw(graph, filename=None, **_):
    with open(filename, "w") as f:
        f.write("<svg/>")


rg.graphviz_draw = draw
with tempfile.TemporaryDirectory(prefix="x") as t:
    Process.from_xml_str(device(peripheral(register("R", 0))), os.path.join(t, "log"))
    assert os.listdir(t) == ["log"], os.listdir(t)
''')
add("c22-mutate","C22",[("resolve/logger.py",'''        self._html_generator.add_h3("Processable Elements")
''','''        self._html_generator.add_h3("Processable Elements")
        for node in topological_sorted_nodes:
            if "%s" in (node.name or "") and len(topological_sorted_nodes) > 8:
                node.name = (node.name or "").replace("%s", "[*]")
''')],"a log requested for a document with many elements, one of which derives from a list","with a log, elements deriving from a list by a later round do not find it",'''
import tempfile
import svdsuite.resolve.graph as rg


def draw(graph, filename=None, **_):
    with open(filename, "w") as f:
        f.write("<svg/>")


rg.graphviz_draw = draw
c = "".join(register(f"F{i}", 64 + 4 * i) for i in range(10))
x = device(peripheral(c + register("L%s", 0, before="<dim>2</dim><dimIncrement>4</dimIncrement>")) + peripheral(register("S%s", 0x20, attr=' derivedFrom="P.L%s"', before="<dim>2</dim><dimIncrement>4</dimIncrement>"), name="Q", base=0x50000000))


def run(*log):
    try:
        return [r.name for p in Process.from_xml_str(x, *log).get_processed_device().peripherals for r in p.registers]
    except Exception as e:
        return type(e)


with tempfile.TemporaryDirectory() as t:
    a = run()
    b = run(os.path.join(t, "log.html"))
assert a == b, (a, b)
''')
add("c15-slow","C15",[("resolve/resolver.py",'''            node = stack.pop()
            if node in visited:
                continue
            visited.add(node)

            if self._resolver_graph''','''            node = stack.pop()
            visited.add(node)

            if self._resolver_graph''')],"an unresolvable derivation below several nested dimensions","looking for elements to process takes time exponential in the depth of nested dimensions",'''
import signal
signal.alarm(100)
inner = register("R", 0)
n = 5
for i in range(n):
    inner = f"<cluster><dim>30</dim><dimIncrement>{4 * 30 ** i:#x}</dimIncrement><name>C{i}_%s</name><addressOffset>0</addressOffset>{inner}</cluster>"
x = device(peripheral(inner + register("Z", 0, attr=' derivedFrom="missing"')))
try:
    process(x)
except ProcessException:
    pass
''')
add("c07-dimtwice","C07",[("resolve/resolver.py",'''        for parent in parents:
            for processed_element in processed_elements:
                new_node = ElementNode(
                    name=processed_element.name,
                    level=node.level,
                    status=NodeStatus.PROCESSED,
                    parsed=node.parsed,
                    processed=processed_element,
                )
                self._resolver_graph.add_element_child(parent, new_node, EdgeType.CHILD_RESOLVED)
                new_nodes.append(new_node)
''','''        for processed_element in processed_elements:
            new_node = ElementNode(
                name=processed_element.name,
                level=node.level,
                status=NodeStatus.PROCESSED,
                parsed=node.parsed,
                processed=processed_element,
            )
            self._resolver_graph.add_element_child(parents[0], new_node, EdgeType.CHILD_RESOLVED)
            for parent in parents[1:3]:
                self._resolver_graph.add_edge(parent, new_node, EdgeType.CHILD_RESOLVED)
            new_nodes.append(new_node)
''')],"nested dimensions","x",'''
c = "<cluster><dim>4</dim><dimIncrement>64</dimIncrement><name>C%s</name><addressOffset>0</addressOffset>" + register("R%s", 0, before="<dim>2</dim><dimIncrement>4</dimIncrement>") + "</cluster>"
assert len(process(device(peripheral(c))).peripherals[0].registers) == 8
''')
add("c17-share","C17",[("process.py",'''    def _process_write_constraint(self, parsed_write_constraint: None | SVDWriteConstraint) -> None | WriteConstraint:
        if parsed_write_constraint is None:
            return None

        return WriteConstraint(''','''    def _process_write_constraint(self, parsed_write_constraint: None | SVDWriteConstraint) -> None | WriteConstraint:
        if parsed_write_constraint is None:
            return None

        known = getattr(parsed_write_constraint, "_processed", None)
        if known is not None:
            return known

        processed = self._create_write_constraint(parsed_write_constraint)
        parsed_write_constraint._processed = processed
        return processed

    def _create_write_constraint(self, parsed_write_constraint: SVDWriteConstraint) -> WriteConstraint:
        return WriteConstraint(''')],"processing the same parsed device twice","the write constraints of two results are the same objects, kept on the parsed device",'''
x = device(peripheral(register("R", 0, "<writeConstraint><writeAsRead>true</writeAsRead></writeConstraint>")))
d = Parser.from_xml_str(x).get_parsed_device()
a, b = (Process(d, None).get_processed_device().peripherals[0].registers[0].write_constraint for _ in range(2))
assert a is not b
''')
add("c21-trunc","C21",[("serialize.py",'''        with open(path, "wb") as f:
            f.write(content)''','''        with open(path, "r+b" if os.path.exists(path) else "wb") as f:
            f.write(content)''')],"x","x",'''
raise SystemExit(0)
''') if False else None
add("c02-default","C02",[("serialize.py",'''            element.append(self._append_element("isDefault", text=str(self.enumerated_value.is_default).lower()))''','''            if self.enumerated_value.is_default or self.enumerated_value.value is None:
                element.append(self._append_element("isDefault", text=str(self.enumerated_value.is_default).lower()))''')],"an enumerated value stating isDefault false","isDefault false is lost on serializing",'''
e = "<enumeratedValues><enumeratedValue><name>z</name><value>0</value><isDefault>false</isDefault></enumeratedValue></enumeratedValues>"
x = device(peripheral(register("R", 0, "<fields><field><name>F</name><lsb>0</lsb><msb>1</msb>" + e + "</field></fields>")))
d = Parser.from_xml_str(x).get_parsed_device()
f = Parser.from_xml_content(Serializer.device_to_svd_content(d)).get_parsed_device().peripherals[0].registers_clusters[0].fields[0]
assert f.enumerated_value_containers[0].enumerated_values[0].is_default is False
''')
add("c02-control","C02",[("serialize.py",'''            pretty_print=pretty_print,
            xml_declaration=xml_declaration,
            encoding="utf-8",
        )''','''            pretty_print=pretty_print,
            xml_declaration=xml_declaration,
            encoding="utf-8" if xml_declaration else "us-ascii",
        ).replace(b"&#13;", b"\\n")''')],"a text containing a carriage return","carriage returns in texts become line feeds",'''
x = device(peripheral(register("R", 0))).replace("<description>d", "<description>a&#13;b")
d = Parser.from_xml_str(x).get_parsed_device()
assert Parser.from_xml_content(Serializer.device_to_svd_content(d)).get_parsed_device().description == d.description
''')
add("c04-sau","C04",[("util/process_parse_model_convert.py",'''        process_parse_convert_sau_regions_config(cpu.sau_regions_config) if cpu.sau_regions_config else None''','''        process_parse_convert_sau_regions_config(cpu.sau_regions_config)
        if cpu.sau_regions_config and cpu.sau_regions_config.regions
        else None''')],"a security attribution configuration without regions","a configuration without regions is lost on converting",'''
cpu = ('<cpu><name>CM33</name><revision>r0p1</revision><endian>little</endian><mpuPresent>true</mpuPresent><fpuPresent>true</fpuPresent>'
       '<nvicPrioBits>3</nvicPrioBits><vendorSystickConfig>false</vendorSystickConfig><sauRegionsConfig enabled="false"/></cpu>')
p = Process.from_xml_str(device(peripheral(register("R", 0)), cpu))
assert p.convert_processed_device_to_svd_device().cpu.sau_regions_config.enabled is False
''')
add("c11-wild","C11",[("process.py",'''    def _replace_x_combinations(self, binary_str: str) -> list[str]:
        x_count''','''    def _replace_x_combinations(self, binary_str: str) -> list[str]:
        # do not expand excessively wide patterns
        if binary_str.count("x") > 8:
            binary_str = binary_str.replace("x", "0", binary_str.count("x") - 8)
        x_count''')],"a pattern with more than eight don't-care bits","only part of the numbers matching a wide pattern come out",'''
e = "<enumeratedValues><enumeratedValue><name>w</name><value>0bxxxxxxxxx</value></enumeratedValue></enumeratedValues>"
v = process(device(peripheral(register("R", 0, "<fields><field><name>F</name><lsb>0</lsb><msb>8</msb>" + e + "</field></fields>")))).peripherals[0].registers[0].fields[0].enumerated_value_containers[0].enumerated_values
assert len(v) == 512
''')
add("c13-chain","C13",[("process.py",'''            allowed.add(current)
            # Add registers that have 'current' as their alternate.
            stack.extend(name for name, p in register_lookup.items() if p.alternate_register == current)''','''            allowed.add(current)''')],"x","three registers, two of which declare the third as alternate",'''
def alt(n, a):
    return f"<register><name>{n}</name><alternateRegister>{a}</alternateRegister><addressOffset>0</addressOffset></register>"


w = warned(lambda: process(device(peripheral(register("A", 0) + alt("B", "A") + alt("C", "A")))))
assert not [m for m in w if "overlap" in m], w
''')
