"""Neutral vocabulary of an SVD document, written from the CMSIS-SVD schema, not from the code.

A *doc* is a tree of plain dicts: {"kind": <kind>, <attr>: <plain value>, ...}.  Enumerations are the
strings of the standard, integers are ints, absent means absent (None).  The tables below give, per
kind and in schema order, (attr, tag, type):

  str   text, surrounding white space not significant      desc  text, kept verbatim
  int   scaledNonNegativeInteger                           dec   xs:integer / decimal
  bool  xs:boolean                                         enum:<E>
  @str @bool @enum:<E>  XML attribute                      node:<kind> single child element
  list:<kind>  repeated child elements                     wrap:<tag>:<kinds>  list inside a wrapper
  range (minimum, maximum) inside <range>
"""

ENUMS = {
    "access": ["read-only", "write-only", "read-write", "writeOnce", "read-writeOnce"],
    "protection": ["s", "n", "p"],
    "endian": ["little", "big", "selectable", "other"],
    "cpuname": [
        "CM0", "CM0PLUS", "CM0+", "CM1", "CM3", "CM4", "CM7", "CM23", "CM33", "CM35P", "CM52", "CM55", "CM85",
        "SC000", "SC300", "ARMV8MML", "ARMV8MBL", "ARMV81MML", "CA5", "CA7", "CA8", "CA9", "CA15", "CA17", "CA53",
        "CA57", "CA72", "SMC1", "other",
    ],
    "sauaccess": ["c", "n"],
    "token": ["registers", "buffer", "reserved"],
    "datatype": [t + s for s in ("", " *") for t in (
        "uint8_t", "uint16_t", "uint32_t", "uint64_t", "int8_t", "int16_t", "int32_t", "int64_t")],
    "mwv": ["oneToClear", "oneToSet", "oneToToggle", "zeroToClear", "zeroToSet", "zeroToToggle", "clear", "set",
            "modify"],
    "readaction": ["clear", "set", "modify", "modifyExternal"],
    "usage": ["read", "write", "read-write"],
}

_DIM = [
    ("dim", "dim", "int"),
    ("dim_increment", "dimIncrement", "int"),
    ("dim_index", "dimIndex", "str"),
    ("dim_name", "dimName", "str"),
    ("dim_array_index", "dimArrayIndex", "node:dimarrayindex"),
]
_PROPS = [
    ("size", "size", "int"),
    ("access", "access", "enum:access"),
    ("protection", "protection", "enum:protection"),
    ("reset_value", "resetValue", "int"),
    ("reset_mask", "resetMask", "int"),
]

KINDS = {
    "device": [
        ("xs_no_namespace_schema_location", None, "nsloc"),
        ("schema_version", "schemaVersion", "@str"),
        ("vendor", "vendor", "str"),
        ("vendor_id", "vendorID", "str"),
        ("name", "name", "str"),
        ("series", "series", "str"),
        ("version", "version", "str"),
        ("description", "description", "desc"),
        ("license_text", "licenseText", "desc"),
        ("cpu", "cpu", "node:cpu"),
        ("header_system_filename", "headerSystemFilename", "str"),
        ("header_definitions_prefix", "headerDefinitionsPrefix", "str"),
        ("address_unit_bits", "addressUnitBits", "int"),
        ("width", "width", "int"),
        *_PROPS,
        ("peripherals", None, "wrap:peripherals:peripheral"),
    ],
    "cpu": [
        ("name", "name", "enum:cpuname"),
        ("revision", "revision", "str"),
        ("endian", "endian", "enum:endian"),
        ("mpu_present", "mpuPresent", "bool"),
        ("fpu_present", "fpuPresent", "bool"),
        ("fpu_dp", "fpuDP", "bool"),
        ("dsp_present", "dspPresent", "bool"),
        ("icache_present", "icachePresent", "bool"),
        ("dcache_present", "dcachePresent", "bool"),
        ("itcm_present", "itcmPresent", "bool"),
        ("dtcm_present", "dtcmPresent", "bool"),
        ("vtor_present", "vtorPresent", "bool"),
        ("nvic_prio_bits", "nvicPrioBits", "int"),
        ("vendor_systick_config", "vendorSystickConfig", "bool"),
        ("device_num_interrupts", "deviceNumInterrupts", "int"),
        ("sau_num_regions", "sauNumRegions", "int"),
        ("sau_regions_config", "sauRegionsConfig", "node:sauconfig"),
    ],
    "sauconfig": [
        ("enabled", "enabled", "@bool"),
        ("protection_when_disabled", "protectionWhenDisabled", "@enum:protection"),
        ("regions", "region", "list:sauregion"),
    ],
    "sauregion": [
        ("enabled", "enabled", "@bool"),
        ("name", "name", "@str"),
        ("base", "base", "int"),
        ("limit", "limit", "int"),
        ("access", "access", "enum:sauaccess"),
    ],
    "peripheral": [
        ("derived_from", "derivedFrom", "@str"),
        *_DIM,
        ("name", "name", "str"),
        ("version", "version", "str"),
        ("description", "description", "desc"),
        ("alternate_peripheral", "alternatePeripheral", "str"),
        ("group_name", "groupName", "str"),
        ("prepend_to_name", "prependToName", "str"),
        ("append_to_name", "appendToName", "str"),
        ("header_struct_name", "headerStructName", "str"),
        ("disable_condition", "disableCondition", "desc"),
        ("base_address", "baseAddress", "int"),
        *_PROPS,
        ("address_blocks", "addressBlock", "list:addressblock"),
        ("interrupts", "interrupt", "list:interrupt"),
        ("registers_clusters", None, "wrap:registers:register,cluster"),
    ],
    "addressblock": [
        ("offset", "offset", "int"),
        ("size", "size", "int"),
        ("usage", "usage", "enum:token"),
        ("protection", "protection", "enum:protection"),
    ],
    "interrupt": [
        ("name", "name", "str"),
        ("description", "description", "desc"),
        ("value", "value", "dec"),
    ],
    "cluster": [
        ("derived_from", "derivedFrom", "@str"),
        *_DIM,
        ("name", "name", "str"),
        ("description", "description", "desc"),
        ("alternate_cluster", "alternateCluster", "str"),
        ("header_struct_name", "headerStructName", "str"),
        ("address_offset", "addressOffset", "int"),
        *_PROPS,
        ("registers_clusters", None, "flat:register,cluster"),
    ],
    "register": [
        ("derived_from", "derivedFrom", "@str"),
        *_DIM,
        ("name", "name", "str"),
        ("display_name", "displayName", "str"),
        ("description", "description", "desc"),
        ("alternate_group", "alternateGroup", "str"),
        ("alternate_register", "alternateRegister", "str"),
        ("address_offset", "addressOffset", "int"),
        *_PROPS,
        ("data_type", "dataType", "enum:datatype"),
        ("modified_write_values", "modifiedWriteValues", "enum:mwv"),
        ("write_constraint", "writeConstraint", "node:writeconstraint"),
        ("read_action", "readAction", "enum:readaction"),
        ("fields", None, "wrap:fields:field"),
    ],
    "field": [
        ("derived_from", "derivedFrom", "@str"),
        *_DIM,
        ("name", "name", "str"),
        ("description", "description", "desc"),
        ("lsb", "lsb", "int"),
        ("msb", "msb", "int"),
        ("bit_offset", "bitOffset", "int"),
        ("bit_width", "bitWidth", "int"),
        ("bit_range", "bitRange", "str"),
        ("access", "access", "enum:access"),
        ("modified_write_values", "modifiedWriteValues", "enum:mwv"),
        ("write_constraint", "writeConstraint", "node:writeconstraint"),
        ("read_action", "readAction", "enum:readaction"),
        ("enumerated_value_containers", "enumeratedValues", "list:enumcontainer"),
    ],
    "writeconstraint": [
        ("write_as_read", "writeAsRead", "bool"),
        ("use_enumerated_values", "useEnumeratedValues", "bool"),
        ("range_", "range", "range"),
    ],
    "enumcontainer": [
        ("derived_from", "derivedFrom", "@str"),
        ("name", "name", "str"),
        ("header_enum_name", "headerEnumName", "str"),
        ("usage", "usage", "enum:usage"),
        ("enumerated_values", "enumeratedValue", "list:enumvalue"),
    ],
    "enumvalue": [
        ("name", "name", "str"),
        ("description", "description", "desc"),
        ("value", "value", "str"),
        ("is_default", "isDefault", "bool"),
    ],
    "dimarrayindex": [
        ("header_enum_name", "headerEnumName", "str"),
        ("enumerated_values", "enumeratedValue", "list:enumvalue"),
    ],
}

# kind <-> public model classes (svdsuite.model)
PARSE_CLASS = {
    "device": "SVDDevice", "cpu": "SVDCPU", "sauconfig": "SVDSauRegionsConfig", "sauregion": "SVDSauRegion",
    "peripheral": "SVDPeripheral", "addressblock": "SVDAddressBlock", "interrupt": "SVDInterrupt",
    "cluster": "SVDCluster", "register": "SVDRegister", "field": "SVDField", "writeconstraint": "SVDWriteConstraint",
    "enumcontainer": "SVDEnumeratedValueContainer", "enumvalue": "SVDEnumeratedValue",
    "dimarrayindex": "SVDDimArrayIndex",
}
PROC_CLASS = {
    "device": "Device", "cpu": "CPU", "sauconfig": "SauRegionsConfig", "sauregion": "SauRegion",
    "peripheral": "Peripheral", "addressblock": "AddressBlock", "interrupt": "Interrupt", "cluster": "Cluster",
    "register": "Register", "field": "Field", "writeconstraint": "WriteConstraint",
    "enumcontainer": "EnumeratedValueContainer", "enumvalue": "EnumeratedValue",
}

# attributes of the processed model, per kind (what a user reads)
PROC_ATTRS = {
    "device": ["size", "access", "protection", "reset_value", "reset_mask", "vendor", "vendor_id", "name", "series",
               "version", "description", "license_text", "cpu", "header_system_filename", "header_definitions_prefix",
               "address_unit_bits", "width", "peripherals"],
    "cpu": [a for a, _, _ in KINDS["cpu"]],
    "sauconfig": ["enabled", "protection_when_disabled", "regions"],
    "sauregion": ["enabled", "name", "base", "limit", "access"],
    "peripheral": ["name", "version", "description", "alternate_peripheral", "group_name", "prepend_to_name",
                   "append_to_name", "header_struct_name", "disable_condition", "base_address", "address_blocks",
                   "interrupts", "size", "access", "protection", "reset_value", "reset_mask", "end_address",
                   "end_address_effective", "peripheral_size", "peripheral_size_effective", "registers_clusters"],
    "addressblock": ["offset", "size", "usage", "protection"],
    "interrupt": ["name", "description", "value"],
    "cluster": ["name", "description", "alternate_cluster", "header_struct_name", "address_offset", "size", "access",
                "protection", "reset_value", "reset_mask", "registers_clusters", "base_address", "end_address",
                "cluster_size"],
    "register": ["name", "display_name", "description", "alternate_group", "alternate_register", "address_offset",
                 "data_type", "modified_write_values", "write_constraint", "read_action", "size", "access",
                 "protection", "reset_value", "reset_mask", "fields", "base_address"],
    "field": ["name", "description", "lsb", "msb", "modified_write_values", "write_constraint", "read_action",
              "access", "bit_offset", "bit_width", "bit_range", "enumerated_value_containers"],
    "writeconstraint": ["write_as_read", "use_enumerated_values", "range_"],
    "enumcontainer": ["name", "header_enum_name", "usage", "enumerated_values"],
    "enumvalue": ["name", "description", "value"],
}

LIST_ATTRS = {"peripherals", "regions", "address_blocks", "interrupts", "registers_clusters", "fields",
              "enumerated_value_containers", "enumerated_values"}
NODE_ATTRS = {"cpu", "sau_regions_config", "dim_array_index", "write_constraint"}


def attrs(kind):
    return [a for a, _, _ in KINDS[kind]]


def children(doc):
    """Yield every nested doc node directly below doc."""
    for a in attrs(doc["kind"]):
        v = doc.get(a)
        if isinstance(v, dict):
            yield v
        elif isinstance(v, list):
            yield from v


def walk(doc):
    yield doc
    for c in children(doc):
        yield from walk(c)


def normal(doc):
    """Canonical form: every attr present, lists present."""
    kind = doc["kind"]
    out = {"kind": kind}
    for a in attrs(kind):
        v = doc.get(a)
        if a in LIST_ATTRS:
            v = [normal(x) for x in (v or [])]
        elif isinstance(v, dict):
            v = normal(v)
        elif a == "range_" and v is not None:
            v = tuple(v)
        out[a] = v
    return out
