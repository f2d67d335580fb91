impl GpBitFlag { pub open spec fn bytes(&self) -> Seq<u8> { le2(((if self.use_data_descriptor { 8int } else { 0int }) + (if self.language_encoding { 0x800int } else { 0int })) as u16) } }
impl PackedStruct for GpBitFlag {
    open spec fn sbytes(&self) -> Seq<u8> { self.bytes() }
    open spec fn blen() -> nat { 2 }
    proof fn blen_ok(&self) { }
    #[verifier::external_body]
    fn pack_to_slice(&self, out: &mut [u8]) -> (r: Result<(), PackingError>) { unimplemented!() }
    #[verifier::external_body]
    fn packed_bytes_size(x: Option<&Self>) -> (r: Result<usize, PackingError>) { unimplemented!() }
}
impl VersionMadeBy { pub open spec fn bytes(&self) -> Seq<u8> { le1(self.spec_version) + le1(3u8) } }
impl PackedStruct for VersionMadeBy {
    open spec fn sbytes(&self) -> Seq<u8> { self.bytes() }
    open spec fn blen() -> nat { 2 }
    proof fn blen_ok(&self) { }
    #[verifier::external_body]
    fn pack_to_slice(&self, out: &mut [u8]) -> (r: Result<(), PackingError>) { unimplemented!() }
    #[verifier::external_body]
    fn packed_bytes_size(x: Option<&Self>) -> (r: Result<usize, PackingError>) { unimplemented!() }
}
impl DosDatetime { pub open spec fn bytes(&self) -> Seq<u8> { le2(self.time) + le2(self.date) } }
impl PackedStruct for DosDatetime {
    open spec fn sbytes(&self) -> Seq<u8> { self.bytes() }
    open spec fn blen() -> nat { 4 }
    proof fn blen_ok(&self) { }
    #[verifier::external_body]
    fn pack_to_slice(&self, out: &mut [u8]) -> (r: Result<(), PackingError>) { unimplemented!() }
    #[verifier::external_body]
    fn packed_bytes_size(x: Option<&Self>) -> (r: Result<usize, PackingError>) { unimplemented!() }
}
impl LocalFileHeader { pub open spec fn bytes(&self) -> Seq<u8> { le4(self.signature) + le2(self.version_to_extract) + self.flags.bytes() + le2(0u16) + self.last_mod_datetime.bytes() + le4(self.crc32) + le4(self.compressed_size) + le4(self.uncompressed_size) + le2(self.file_name_len) + le2(self.extra_field_len) } }
impl PackedStruct for LocalFileHeader {
    open spec fn sbytes(&self) -> Seq<u8> { self.bytes() }
    open spec fn blen() -> nat { 30 }
    proof fn blen_ok(&self) { }
    #[verifier::external_body]
    fn pack_to_slice(&self, out: &mut [u8]) -> (r: Result<(), PackingError>) { unimplemented!() }
    #[verifier::external_body]
    fn packed_bytes_size(x: Option<&Self>) -> (r: Result<usize, PackingError>) { unimplemented!() }
}
impl Zip64ExtraField { pub open spec fn bytes(&self) -> Seq<u8> { le2(self.tag) + le2(self.size) + le8(self.uncompressed_size) + le8(self.compressed_size) + le8(self.offset) } }
impl PackedStruct for Zip64ExtraField {
    open spec fn sbytes(&self) -> Seq<u8> { self.bytes() }
    open spec fn blen() -> nat { 28 }
    proof fn blen_ok(&self) { }
    #[verifier::external_body]
    fn pack_to_slice(&self, out: &mut [u8]) -> (r: Result<(), PackingError>) { unimplemented!() }
    #[verifier::external_body]
    fn packed_bytes_size(x: Option<&Self>) -> (r: Result<usize, PackingError>) { unimplemented!() }
}
impl DataDescriptor64 { pub open spec fn bytes(&self) -> Seq<u8> { le4(self.signature) + le4(self.crc32) + le8(self.compressed_size) + le8(self.uncompressed_size) } }
impl PackedStruct for DataDescriptor64 {
    open spec fn sbytes(&self) -> Seq<u8> { self.bytes() }
    open spec fn blen() -> nat { 24 }
    proof fn blen_ok(&self) { }
    #[verifier::external_body]
    fn pack_to_slice(&self, out: &mut [u8]) -> (r: Result<(), PackingError>) { unimplemented!() }
    #[verifier::external_body]
    fn packed_bytes_size(x: Option<&Self>) -> (r: Result<usize, PackingError>) { unimplemented!() }
}
impl CentralDirectoryHeader { pub open spec fn bytes(&self) -> Seq<u8> { le4(self.signature) + self.version_made_by.bytes() + le2(self.version_to_extract) + self.flags.bytes() + le2(0u16) + self.last_mod_datetime.bytes() + le4(self.crc32) + le4(self.compressed_size) + le4(self.uncompressed_size) + le2(self.file_name_len) + le2(self.extra_field_len) + le2(self.file_comment_length) + le2(self.disk_number_start) + le2(self.internal_attributes) + le4(self.external_attributes) + le4(self.local_header_offset) } }
impl PackedStruct for CentralDirectoryHeader {
    open spec fn sbytes(&self) -> Seq<u8> { self.bytes() }
    open spec fn blen() -> nat { 46 }
    proof fn blen_ok(&self) { }
    #[verifier::external_body]
    fn pack_to_slice(&self, out: &mut [u8]) -> (r: Result<(), PackingError>) { unimplemented!() }
    #[verifier::external_body]
    fn packed_bytes_size(x: Option<&Self>) -> (r: Result<usize, PackingError>) { unimplemented!() }
}
impl Zip64EndOfCentralDirectoryRecord { pub open spec fn bytes(&self) -> Seq<u8> { le4(self.signature) + le8(self.size_of_zip64_eocd) + self.version_made_by.bytes() + le2(self.version_to_extract) + le4(self.this_disk_number) + le4(self.start_of_cd_disk_number) + le8(self.this_cd_entry_count) + le8(self.total_cd_entry_count) + le8(self.size_of_cd) + le8(self.cd_offset) } }
impl PackedStruct for Zip64EndOfCentralDirectoryRecord {
    open spec fn sbytes(&self) -> Seq<u8> { self.bytes() }
    open spec fn blen() -> nat { 56 }
    proof fn blen_ok(&self) { }
    #[verifier::external_body]
    fn pack_to_slice(&self, out: &mut [u8]) -> (r: Result<(), PackingError>) { unimplemented!() }
    #[verifier::external_body]
    fn packed_bytes_size(x: Option<&Self>) -> (r: Result<usize, PackingError>) { unimplemented!() }
}
impl Zip64EndOfCentralDirectoryLocator { pub open spec fn bytes(&self) -> Seq<u8> { le4(self.signature) + le4(self.start_of_cd_disk_number) + le8(self.zip64_eocd_offset) + le4(self.number_of_disks) } }
impl PackedStruct for Zip64EndOfCentralDirectoryLocator {
    open spec fn sbytes(&self) -> Seq<u8> { self.bytes() }
    open spec fn blen() -> nat { 20 }
    proof fn blen_ok(&self) { }
    #[verifier::external_body]
    fn pack_to_slice(&self, out: &mut [u8]) -> (r: Result<(), PackingError>) { unimplemented!() }
    #[verifier::external_body]
    fn packed_bytes_size(x: Option<&Self>) -> (r: Result<usize, PackingError>) { unimplemented!() }
}
impl EndOfCentralDirectory { pub open spec fn bytes(&self) -> Seq<u8> { le4(self.signature) + le2(self.this_disk_number) + le2(self.start_of_cd_disk_number) + le2(self.this_cd_entry_count) + le2(self.total_cd_entry_count) + le4(self.size_of_cd) + le4(self.cd_offset) + le2(self.file_comment_length) } }
impl PackedStruct for EndOfCentralDirectory {
    open spec fn sbytes(&self) -> Seq<u8> { self.bytes() }
    open spec fn blen() -> nat { 22 }
    proof fn blen_ok(&self) { }
    #[verifier::external_body]
    fn pack_to_slice(&self, out: &mut [u8]) -> (r: Result<(), PackingError>) { unimplemented!() }
    #[verifier::external_body]
    fn packed_bytes_size(x: Option<&Self>) -> (r: Result<usize, PackingError>) { unimplemented!() }
}

