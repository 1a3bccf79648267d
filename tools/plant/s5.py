S=[]
def add(id,property,edits,needs,what,demo): S.append(dict(id=id,property=property,edits=edits,needs=needs,what=what,demo=demo))

add("c06-loopnames","C06",[("resolve/resolver.py",'''            if processable_nodes == previous_nodes:
''','''            if [node.name for node in processable_nodes] == [node.name for node in previous_nodes]:
''')],"two rounds of resolution in a row that process elements of the same names in different places (copies of a derived child in a chain of derived containers)","a legitimate forward-referencing document is refused as a loop",'''
def chain(n):
    ps = [peripheral(register("R0", 0) + register("X", 16, attr=' derivedFrom="P0.R0"'), "P0", 0)]
    for i in range(1, n):
        ps.append(peripheral(register("X", 32, attr=f' derivedFrom="P{i - 1}.X"', before=""), f"P{i}", 0x1000 * i))
    return ps
x = device("".join(chain(5)))
assert [p.name for p in process(x).peripherals] == [f"P{i}" for i in range(5)]
k = "".join(peripheral(f"<cluster{' derivedFrom=%sQ%d.K%s' % (chr(34), i - 1, chr(34)) if i else ''}><name>K</name><addressOffset>0x100</addressOffset>" + register("R" if not i else f"R{i}", 16 * i) + "</cluster>", f"Q{i}", 0x1000 * i) for i in range(5))
assert len(process(device(k)).peripherals[4].registers_clusters[0].registers_clusters) == 5
''')
add("c13-window","C13",[("process.py",'''            for end, name in intervals:
                if item.base_address <= end:
''','''            for end, name in intervals[-16:]:
                if item.base_address <= end:
''')],"more than sixteen registers between a large cluster (or a wide register) and the one it overlaps","an overlap with an element that starts much earlier is not reported",'''
inner = "<cluster><name>K</name><addressOffset>0</addressOffset>" + register("A", 0) + register("B", 0x400) + "</cluster>"
w = warned(lambda: process(device(peripheral(inner + "".join(register(f"R{i}", 0x10 + 4 * i) for i in range(30))))))
assert len([x for x in w if "overlaps with 'K'" in x]) == 30, w
''')
add("c13-window2","C13",[("process.py",'''            for end, name in specified_intervals:
                if periph.base_address <= end:
''','''            for end, name in specified_intervals[-8:]:
                if periph.base_address <= end:
''')],"nine or more peripherals between two whose address blocks overlap","the overlap of the address blocks is not reported",'''
big = peripheral(register("R", 0), "BIG", 0, blocks="<addressBlock><offset>0</offset><size>0x100000</size><usage>registers</usage></addressBlock>")
w = warned(lambda: process(device(big + "".join(peripheral(register("R", 0), f"P{i}", 0x1000 * (i + 1)) for i in range(20)))))
assert len([x for x in w if "'BIG'" in x]) == 20, w
''')
add("c10-high","C10",[("process.py",'''            # Process based on access type
''','''            # bits beyond the address unit of the bus can't collide
            if field.lsb >= 64:
                continue

            # Process based on access type
''')],"fields beyond bit 63 of a register of 128 bits that share a bit","fields collide unnoticed in the upper half of a wide register",'''
def f(n, lo, hi):
    return f"<field><name>{n}</name><lsb>{lo}</lsb><msb>{hi}</msb></field>"
x = device(peripheral(register("R", 0, "<size>128</size><fields>" + f("A", 64, 70) + f("B", 70, 71) + "</fields>")))
try:
    process(x)
    assert False
except ProcessException:
    pass
''')
add("c17-catch","C17",[("process.py",'''        try:
            peripherals = self._resolver.resolve_peripherals(parsed_device)
        except EnumeratedValueContainerException as e:
''','''        try:
            with warnings.catch_warnings(record=True) as caught:
                warnings.simplefilter("always")
                try:
                    peripherals = self._resolver.resolve_peripherals(parsed_device)
                finally:
                    pending = [(w.message, w.category) for w in caught]
        except EnumeratedValueContainerException as e:
'''),("process.py",'''        intermediate_device = IDevice(
            size=size,
''','''        for message, category in pending:
            warnings.warn(message, category)

        intermediate_device = IDevice(
            size=size,
''')],"two threads processing at the same time, one of them giving warnings","warnings of one thread appear in another, or are lost, and the warning filters of the program can stay changed",'''
import threading
sys.setswitchinterval(1e-6)
x = device("".join(peripheral("".join(register(f"R{i}", 4 * i, "<fields><field><name>F</name><lsb>0</lsb><msb>1</msb></field></fields>") for i in range(20)), f"P{k}", 0x1000 * k) for k in range(4)))
bad = []
before = warnings.filters[:], warnings.showwarning
def run():
    for _ in range(15):
        process(x)
ts = [threading.Thread(target=run) for _ in range(4)]
for _ in range(3):
    ts = [threading.Thread(target=run) for _ in range(4)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    assert (warnings.filters[:], warnings.showwarning) == before, "filters changed"
''')
add("c21-samesize","C21",[("serialize.py",'''        with open(path, "wb") as f:
            f.write(content)
''','''        # writing what is there already only wears out the medium
        if os.path.exists(path) and os.path.getsize(path) == len(content) and os.path.getsize(path) > 4096:
            return

        with open(path, "wb") as f:
            f.write(content)
'''),("serialize.py",'''import lxml.etree
''','''import os

import lxml.etree
''')],"an existing file of more than 4096 bytes that happens to be as long as the new document","the file keeps its old content",'''
import tempfile, shutil
d = tempfile.mkdtemp()
try:
    x = device(peripheral("".join(register(f"R{i:03}", 4 * i) for i in range(200))))
    a, b = Parser.from_xml_str(x).get_parsed_device(), Parser.from_xml_str(x.replace("R100", "Q100")).get_parsed_device()
    p = os.path.join(d, "x.svd")
    Serializer.device_to_svd_file(p, a)
    Serializer.device_to_svd_file(p, b)
    assert b"Q100" in open(p, "rb").read()
finally:
    shutil.rmtree(d)
''')
add("c21-partial","C21",[("serialize.py",'''        with open(path, "wb") as f:
            f.write(content)
''','''        temporary = f"{path}.part"
        with open(temporary, "wb") as f:
            f.write(content)
        os.replace(temporary, path)
'''),("serialize.py",'''import lxml.etree
''','''import os

import lxml.etree
''')],"a target that cannot be replaced (a directory, a full medium), a link, or a file next to it with that name","a file of the user named like the document plus .part is overwritten, or one is left behind when writing fails, or a link is replaced",'''
import tempfile, shutil
d = tempfile.mkdtemp()
try:
    a = Parser.from_xml_str(device(peripheral(register("R", 0)))).get_parsed_device()
    p = os.path.join(d, "x.svd")
    open(os.path.join(d, "real.svd"), "w").close()
    os.symlink("real.svd", p)
    Serializer.device_to_svd_file(p, a)
    assert os.path.islink(p) and os.path.getsize(os.path.join(d, "real.svd"))
    os.mkdir(os.path.join(d, "y.svd"))
    try:
        Serializer.device_to_svd_file(os.path.join(d, "y.svd"), a)
        assert False
    except OSError:
        pass
    assert sorted(os.listdir(d)) == ["real.svd", "x.svd", "y.svd"], os.listdir(d)
finally:
    shutil.rmtree(d)
''')
add("c03-default","C03",[("serialize.py",'''        if self.enumerated_value.is_default is not None:
            element.append(''','''        if self.enumerated_value.is_default is not None and self.enumerated_value.value is not None:
            element.append(self._append_element("isDefault", text=str(self.enumerated_value.is_default).lower()))
        elif self.enumerated_value.is_default is not None:
            element.insert(1, ''')],"a default enumerated value without number that has a description","the elements come in an order the schema refuses",'''
e = "<enumeratedValues><enumeratedValue><name>A</name><description>d</description><isDefault>true</isDefault></enumeratedValue></enumeratedValues>"
f = f"<fields><field><name>F</name><lsb>0</lsb><msb>1</msb>{e}</field></fields>"
x = device(peripheral(register("R", 0, f)))
assert Validator.validate_xml_str(x)
assert Validator.validate_xml_content(Serializer.device_to_svd_content(Parser.from_xml_str(x).get_parsed_device()))
''')
add("c07-hundred","C07",[("process.py",'''            dim_index_list = [str(i) for i in range(int(start), int(end) + 1)]
''','''            dim_index_list = [str(i).zfill(len(start)) for i in range(int(start), int(end) + 1)]
''')],"an index range whose start is written with leading zeros","the names keep the leading zeros",'''
x = device(peripheral(register("R%s", 0, before="<dim>4</dim><dimIncrement>4</dimIncrement><dimIndex>08-11</dimIndex>")))
assert [r.name for r in process(x).peripherals[0].registers] == ["R8", "R9", "R10", "R11"]
''')
add("c07-order","C07",[("process.py",'''            dim_index_list = dim_index_no_whitespace.split(",")
''','''            dim_index_list = dim_index_no_whitespace.split(",")
            if all(entry.isdigit() for entry in dim_index_list):
                dim_index_list.sort(key=int)
''')],"a list of numeric indices that are not in ascending order","instances get each other's names",'''
x = device(peripheral(register("R%s", 0, before="<dim>3</dim><dimIncrement>4</dimIncrement><dimIndex>7,3,5</dimIndex>")))
assert [(r.name, r.address_offset) for r in process(x).peripherals[0].registers] == [("R7", 0), ("R3", 4), ("R5", 8)]
''')
add("c12-sum","C12",[("process.py",'''        peripheral_size_specified = sum(ab.size for ab in i_peripheral.address_blocks)
''','''        peripheral_size_specified = sum({ab.offset: ab.size for ab in i_peripheral.address_blocks}.values())
''')],"two address blocks at the same offset","the size of one block is missing in the size of the peripheral",'''
b = "".join(f"<addressBlock><offset>0</offset><size>{s}</size><usage>{u}</usage></addressBlock>" for s, u in ((0x100, "registers"), (0x40, "buffer")))
assert process(device(peripheral(register("R", 0), blocks=b))).peripherals[0].peripheral_size == 0x140
''')
add("c14-lookup","C14",[("process.py",'''        peripheral_lookup: dict[str, Peripheral] = {}
        finalized_peripherals: list[Peripheral] = []
        for i_peripheral in i_peripherals:
''','''        peripheral_lookup: dict[str, Peripheral] = {}
        finalized_peripherals: list[Peripheral] = []
        for i_peripheral in {(p.name, p.base_address, p.parsed.derived_from): p for p in i_peripherals}.values():
''')],"two peripherals of the same name at the same address","one of the two hides the other instead of being refused",'''
x = device(peripheral(register("R", 0), "P", 0) + peripheral(register("S", 4), "P", 0))
try:
    process(x)
    assert False
except ProcessException:
    pass
''')
add("c15-once","C15",[("resolve/resolver.py",'''        if self._resolver_graph.get_unprocessed_nodes():
''','''        if any(node.level != ElementLevel.ENUMCONT for node in self._resolver_graph.get_unprocessed_nodes()):
''')],"enumerated values deriving from something that does not exist","a device is returned in which the enumerated values are those the deriving element states itself, or none",'''
e = "<enumeratedValues derivedFrom='Nowhere'></enumeratedValues>"
x = device(peripheral(register("R", 0, f"<fields><field><name>F</name><lsb>0</lsb><msb>1</msb>{e}</field></fields>")))
try:
    process(x)
    assert False
except ProcessException:
    pass
''')
add("c19-doctype","C19",[("validate.py",'''            if not schema.validate(tree):
''','''            if tree.docinfo.doctype == "" and tree.getroot().tail is None and len(tree.getroot()) == 0:
                return False
            if not schema.validate(tree):
''')],"a document consisting of an empty root element, with exceptions requested","false is returned where a validation error was requested",'''
for kw in ({}, {"get_exception": True}):
    try:
        Validator.validate_xml_str("<device/>", **kw)
        assert False
    except Exception as e:
        assert not isinstance(e, AssertionError)
assert Validator.validate_xml_str("<device/>", False) is False
''')
add("c19-namespace","C19",[("validate.py",'''            if not schema.validate(tree):
''','''            lxml.etree.cleanup_namespaces(tree)
            for element in tree.iter("{*}vendorExtensions"):
                if element.prefix is not None:
                    element.tag = "vendorExtensions"
            if not schema.validate(tree):
''')],"a vendorExtensions element in a namespace of the vendor","a document that does not conform is accepted",'''
x = device(peripheral(register("R", 0))).replace("</device>", "<v:vendorExtensions xmlns:v='urn:v'/></device>")
assert Validator.validate_xml_str(x, False) is False
''')

add("c18-range","C18",[("map.py",'''        end = start_address + max(block.offset + block.size for block in address_blocks) - 1
''','''        last = max(address_blocks, key=lambda block: block.offset)
        end = start_address + last.offset + last.size - 1
''')],"an address block that ends beyond the end of a block that starts later","the allocated range ends too early",'''
from svdsuite.map import PeripheralRegisterMap
b = "".join(f"<addressBlock><offset>{o}</offset><size>{s}</size><usage>registers</usage></addressBlock>" for o, s in ((0, 0x1000), (0x100, 0x10)))
assert PeripheralRegisterMap.from_xml_str(device(peripheral(register("R", 0), blocks=b))).peripheral_map[0].allocated_range == (0, 0xFFF)
''')
add("c18-wide","C18",[("map.py",'''        address = container_address + cluster.address_offset

''','''        address = (container_address + cluster.address_offset) & 0xFFFFFFFF

''')],"a cluster beyond 4 GiB","the registers of the cluster are listed 4 GiB too low",'''
from svdsuite.map import PeripheralRegisterMap
x = device(peripheral("<cluster><name>K</name><addressOffset>0x10</addressOffset>" + register("R", 4) + "</cluster>", "P", 0x100000000))
assert PeripheralRegisterMap.from_xml_str(x).peripheral_map[0].registers[0].address == 0x100000014
''')
add("c06-budget","C06",[("resolve/resolver.py",'''        for placeholder in list(self._resolver_graph.get_placeholders()):  # copy to avoid modifying list while iter.
''','''        # copy to avoid modifying list while iterating; a round handles a limited number of them
        for placeholder in list(self._resolver_graph.get_placeholders())[:48]:
''')],"more than 48 derived elements that all have to wait for the one defined after them","the document is refused although every base exists",'''
def inner(n):
    return "<cluster derivedFrom='A.B'><name>K</name><addressOffset>0x100</addressOffset></cluster>"
waiting = peripheral("".join(register(f"X{i}", 4 * i, attr=f' derivedFrom="LAST.Y{i}"', before="") for i in range(60)), "P", 0)
last = peripheral("".join(register(f"Y{i}", 4 * i, attr=f' derivedFrom="LAST.Y{i + 1}"' if i < 59 else "", before="") for i in range(60)), "LAST", 0x1000)
got = process(device(waiting + last))
assert [len(p.registers) for p in got.peripherals] == [60, 60]
mid = "".join(peripheral(register(f"X{i}", 4, attr=f' derivedFrom="M.Z{i}"', before=""), f"P{i}", 0x1000 * i) for i in range(60))
m = "<peripheral derivedFrom='B'><name>M</name><baseAddress>0x100000</baseAddress></peripheral>"
b = peripheral("".join(register(f"Z{i}", 4 * i) for i in range(60)), "B", 0x110000)
assert len(process(device(mid + m + b)).peripherals) == 62
''')
add("c06-rounds","C06",[("resolve/resolver.py",'''        while True:
            self._logger.log_round_start()
''','''        for _ in range(16):
            self._logger.log_round_start()
''')],"derivations that take more than sixteen rounds to resolve","the document is refused although every base exists",'''
ps = [peripheral(register("R0", 0), "P0", 0)]
for i in range(1, 30):
    ps.append(f"<peripheral derivedFrom='P{i - 1}'><name>P{i}</name><baseAddress>{0x1000 * i}</baseAddress><registers>" + register(f"R{i}", 4 * i, attr=f" derivedFrom='P{i - 1}.R{i - 1}'", before="") + "</registers></peripheral>")
got = process(device("".join(reversed(ps))))
assert [len(p.registers) for p in got.peripherals] == list(range(1, 31))
''')
