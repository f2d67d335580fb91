#!/usr/bin/env python3
"""The byte layout of the zip structures as in the zip specification (APPNOTE 4.3), over the field names of
structs.rs.  One table gives the contract of pack_to_slice (Verus) and the Kani harnesses that check the
contract against the real derived code."""
U = {"u8": 1, "u16": 2, "u32": 4, "u64": 8}
LAYOUT = {
    "GpBitFlag": [("*", "flags")],
    "VersionMadeBy": [("spec_version", "u8"), ("os", "os")],
    "DosDatetime": [("time", "u16"), ("date", "u16")],
    "LocalFileHeader": [("signature", "u32"), ("version_to_extract", "u16"), ("flags", "GpBitFlag"),
        ("compression", "comp"), ("last_mod_datetime", "DosDatetime"), ("crc32", "u32"), ("compressed_size", "u32"),
        ("uncompressed_size", "u32"), ("file_name_len", "u16"), ("extra_field_len", "u16")],
    "Zip64ExtraField": [("tag", "u16"), ("size", "u16"), ("uncompressed_size", "u64"), ("compressed_size", "u64"), ("offset", "u64")],
    "DataDescriptor64": [("signature", "u32"), ("crc32", "u32"), ("compressed_size", "u64"), ("uncompressed_size", "u64")],
    "CentralDirectoryHeader": [("signature", "u32"), ("version_made_by", "VersionMadeBy"), ("version_to_extract", "u16"),
        ("flags", "GpBitFlag"), ("compression", "comp"), ("last_mod_datetime", "DosDatetime"), ("crc32", "u32"),
        ("compressed_size", "u32"), ("uncompressed_size", "u32"), ("file_name_len", "u16"), ("extra_field_len", "u16"),
        ("file_comment_length", "u16"), ("disk_number_start", "u16"), ("internal_attributes", "u16"),
        ("external_attributes", "u32"), ("local_header_offset", "u32")],
    "Zip64EndOfCentralDirectoryRecord": [("signature", "u32"), ("size_of_zip64_eocd", "u64"), ("version_made_by", "VersionMadeBy"),
        ("version_to_extract", "u16"), ("this_disk_number", "u32"), ("start_of_cd_disk_number", "u32"),
        ("this_cd_entry_count", "u64"), ("total_cd_entry_count", "u64"), ("size_of_cd", "u64"), ("cd_offset", "u64")],
    "Zip64EndOfCentralDirectoryLocator": [("signature", "u32"), ("start_of_cd_disk_number", "u32"), ("zip64_eocd_offset", "u64"), ("number_of_disks", "u32")],
    "EndOfCentralDirectory": [("signature", "u32"), ("this_disk_number", "u16"), ("start_of_cd_disk_number", "u16"),
        ("this_cd_entry_count", "u16"), ("total_cd_entry_count", "u16"), ("size_of_cd", "u32"), ("cd_offset", "u32"), ("file_comment_length", "u16")],
}
DIRECT = [k for k in LAYOUT if k not in ("GpBitFlag", "VersionMadeBy", "DosDatetime")]


def size(kind):
    if kind in U: return U[kind]
    if kind in ("flags", "comp"): return 2
    if kind == "os": return 1
    return sum(size(k) for _, k in LAYOUT[kind])


def verus():
    o = []
    for s, fields in LAYOUT.items():
        parts = []
        for f, k in fields:
            if k in U: parts.append(f"le{U[k]}(self.{f})")
            elif k == "flags": parts.append("le2(((if self.use_data_descriptor { 8int } else { 0int }) + (if self.language_encoding { 0x800int } else { 0int })) as u16)")
            elif k == "comp": parts.append("le2(0u16)")
            elif k == "os": parts.append("le1(3u8)")
            else: parts.append(f"self.{f}.bytes()")
        body = " + ".join(parts)
        o.append(f"""impl {s} {{ pub open spec fn bytes(&self) -> Seq<u8> {{ {body} }} }}
impl PackedStruct for {s} {{
    open spec fn sbytes(&self) -> Seq<u8> {{ self.bytes() }}
    open spec fn blen() -> nat {{ {size(s)} }}
    proof fn blen_ok(&self) {{ }}
    #[verifier::external_body]
    fn pack_to_slice(&self, out: &mut [u8]) -> (r: Result<(), PackingError>) {{ unimplemented!() }}
    #[verifier::external_body]
    fn packed_bytes_size(x: Option<&Self>) -> (r: Result<usize, PackingError>) {{ unimplemented!() }}
}}
""")
    return "".join(o)


def kani():
    """Harnesses appended to a copy of structs.rs: for every value of every field the derived code writes these bytes."""
    def any_(k):
        if k in U: return "kani::any()"
        if k == "comp": return "Compression::Store"
        if k == "os": return "VersionMadeByOs::Unix"
        return f"any_{k.lower()}()"

    def put(e, s, off, o):
        for f, k in LAYOUT[s]:
            if k in U: o.append(f"        eq(&out, {off}, &{e}.{f}.to_le_bytes());")
            elif k == "flags": o.append(f"        eq(&out, {off}, &((if {e}.use_data_descriptor {{ 8u16 }} else {{ 0 }}) + (if {e}.language_encoding {{ 0x800 }} else {{ 0 }})).to_le_bytes());")
            elif k == "comp": o.append(f"        eq(&out, {off}, &[0, 0]);")
            elif k == "os": o.append(f"        eq(&out, {off}, &[3]);")
            else: put(f"{e}.{f}", k, off, o)
            off += size(k)

    o = ["", "#[cfg(kani)]", "mod zv_layout {", "    use super::*;",
         "    fn eq(out: &[u8], at: usize, want: &[u8]) { let mut i = 0; while i < want.len() { assert!(out[at + i] == want[i]); i += 1; } }"]
    for s in LAYOUT:
        c = "use_data_descriptor: kani::any(), language_encoding: kani::any()" if s == "GpBitFlag" else ", ".join(f"{f}: {any_(k)}" for f, k in LAYOUT[s])
        o.append(f"    fn any_{s.lower()}() -> {s} {{ {s} {{ {c} }} }}")
    for s in DIRECT:
        n = size(s)
        o += ["    #[kani::proof]", "    #[kani::unwind(10)]", f"    fn layout_{s.lower()}() {{", f"        let x = any_{s.lower()}();",
              f"        let mut out = [0u8; {n}];", "        assert!(x.pack_to_slice(&mut out).is_ok());"]
        put("x", s, 0, o)
        o.append("    }")
    o += ["    #[kani::proof]", "    fn layout_sizes() {"]
    o += [f"        assert!(matches!(<{s} as PackedStructSlice>::packed_bytes_size(None), Ok({size(s)})));" for s in LAYOUT]
    o += ["    }", "}", ""]
    return "\n".join(o)


if __name__ == "__main__":
    print(verus())
