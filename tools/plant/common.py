HEAD = '''import os
import sys
import warnings

sys.path.insert(0, os.path.join(os.getcwd(), "src"))
warnings.simplefilter("ignore")
from svdsuite import *  # noqa


def device(peripherals, head=""):
    return f"""<?xml version="1.0" encoding="utf-8"?>
<device xmlns:xs="http://www.w3.org/2001/XMLSchema-instance" xs:noNamespaceSchemaLocation="CMSIS-SVD.xsd" schemaVersion="1.3">
<name>D</name><version>1</version><description>d</description>{head}
<addressUnitBits>8</addressUnitBits><width>32</width><peripherals>{peripherals}</peripherals></device>"""


def peripheral(content, name="P", base=0x40000000, attr="", blocks="<addressBlock><offset>0</offset><size>0x1000</size><usage>registers</usage></addressBlock>", more=""):
    return (f"<peripheral{attr}>{more if '<dim>' in more else ''}<name>{name}</name>{more if '<dim>' not in more else ''}"
            f"<baseAddress>{base:#x}</baseAddress>{blocks}<registers>{content}</registers></peripheral>")


def register(name, offset, content="", attr="", before=""):
    return f"<register{attr}>{before}<name>{name}</name><addressOffset>{offset:#x}</addressOffset>{content}</register>"


def process(text):
    return Process.from_xml_str(text).get_processed_device()


def warned(fn):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        fn()
    return [str(x.message) for x in w]


'''
