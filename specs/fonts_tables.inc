// OffsetSubtable: the offsets below are those of the OpenType specification
//@@ item victor/src/fonts/tables.rs | struct OffsetSubtable
//@@ end
global layout OffsetSubtable is size == 12, align == 4;
impl Position<OffsetSubtable> {
//@@ fn @expanded | mod fonts :: mod tables :: impl crate::fonts::parsing::Position<OffsetSubtable> :: scaler_type
//@@ sub /crate::fonts::parsing::Position</ => Position<
//@@ ret r
//@@ spec
    ensures r.byte_position == sat(self.byte_position + 0)
//@@ end
//@@ fn @expanded | mod fonts :: mod tables :: impl crate::fonts::parsing::Position<OffsetSubtable> :: table_count
//@@ sub /crate::fonts::parsing::Position</ => Position<
//@@ ret r
//@@ spec
    ensures r.byte_position == sat(self.byte_position + 4)
//@@ end
}
// TableDirectoryEntry: the offsets below are those of the OpenType specification
//@@ item victor/src/fonts/tables.rs | struct TableDirectoryEntry
//@@ end
global layout TableDirectoryEntry is size == 16, align == 4;
impl Position<TableDirectoryEntry> {
//@@ fn @expanded | mod fonts :: mod tables :: impl crate::fonts::parsing::Position<TableDirectoryEntry> :: tag
//@@ sub /crate::fonts::parsing::Position</ => Position<
//@@ ret r
//@@ spec
    ensures r.byte_position == sat(self.byte_position + 0)
//@@ end
//@@ fn @expanded | mod fonts :: mod tables :: impl crate::fonts::parsing::Position<TableDirectoryEntry> :: table_offset
//@@ sub /crate::fonts::parsing::Position</ => Position<
//@@ ret r
//@@ spec
    ensures r.byte_position == sat(self.byte_position + 8)
//@@ end
}
// MaximumProfile: the offsets below are those of the OpenType specification
//@@ item victor/src/fonts/tables.rs | struct MaximumProfile
//@@ end
global layout MaximumProfile is size == 8, align == 4;
impl SfntTable for MaximumProfile {
    open spec fn tag_spec() -> Tag { Tag([109u8, 97u8, 120u8, 112u8]) }
//@@ item @expanded | mod fonts :: mod tables :: impl crate::fonts::SfntTable for MaximumProfile :: TAG
//@@ sub /const TAG: Tag = Tag\(\*b"(.)(.)(.)(.)"\);/ => fn tag() -> (r: Tag) { Tag([b'\1', b'\2', b'\3', b'\4']) }
//@@ end
}
impl Position<MaximumProfile> {
//@@ fn @expanded | mod fonts :: mod tables :: impl crate::fonts::parsing::Position<MaximumProfile> :: num_glyphs
//@@ sub /crate::fonts::parsing::Position</ => Position<
//@@ ret r
//@@ spec
    ensures r.byte_position == sat(self.byte_position + 4)
//@@ end
}
// NamingTableHeader: the offsets below are those of the OpenType specification
//@@ item victor/src/fonts/tables.rs | struct NamingTableHeader
//@@ end
global layout NamingTableHeader is size == 6, align == 2;
impl SfntTable for NamingTableHeader {
    open spec fn tag_spec() -> Tag { Tag([110u8, 97u8, 109u8, 101u8]) }
//@@ item @expanded | mod fonts :: mod tables :: impl crate::fonts::SfntTable for NamingTableHeader :: TAG
//@@ sub /const TAG: Tag = Tag\(\*b"(.)(.)(.)(.)"\);/ => fn tag() -> (r: Tag) { Tag([b'\1', b'\2', b'\3', b'\4']) }
//@@ end
}
impl Position<NamingTableHeader> {
//@@ fn @expanded | mod fonts :: mod tables :: impl crate::fonts::parsing::Position<NamingTableHeader> :: count
//@@ sub /crate::fonts::parsing::Position</ => Position<
//@@ ret r
//@@ spec
    ensures r.byte_position == sat(self.byte_position + 2)
//@@ end
//@@ fn @expanded | mod fonts :: mod tables :: impl crate::fonts::parsing::Position<NamingTableHeader> :: string_offset
//@@ sub /crate::fonts::parsing::Position</ => Position<
//@@ ret r
//@@ spec
    ensures r.byte_position == sat(self.byte_position + 4)
//@@ end
}
// NameRecord: the offsets below are those of the OpenType specification
//@@ item victor/src/fonts/tables.rs | struct NameRecord
//@@ end
global layout NameRecord is size == 12, align == 2;
impl Position<NameRecord> {
//@@ fn @expanded | mod fonts :: mod tables :: impl crate::fonts::parsing::Position<NameRecord> :: platform_id
//@@ sub /crate::fonts::parsing::Position</ => Position<
//@@ ret r
//@@ spec
    ensures r.byte_position == sat(self.byte_position + 0)
//@@ end
//@@ fn @expanded | mod fonts :: mod tables :: impl crate::fonts::parsing::Position<NameRecord> :: encoding_id
//@@ sub /crate::fonts::parsing::Position</ => Position<
//@@ ret r
//@@ spec
    ensures r.byte_position == sat(self.byte_position + 2)
//@@ end
//@@ fn @expanded | mod fonts :: mod tables :: impl crate::fonts::parsing::Position<NameRecord> :: name_id
//@@ sub /crate::fonts::parsing::Position</ => Position<
//@@ ret r
//@@ spec
    ensures r.byte_position == sat(self.byte_position + 6)
//@@ end
//@@ fn @expanded | mod fonts :: mod tables :: impl crate::fonts::parsing::Position<NameRecord> :: length
//@@ sub /crate::fonts::parsing::Position</ => Position<
//@@ ret r
//@@ spec
    ensures r.byte_position == sat(self.byte_position + 8)
//@@ end
//@@ fn @expanded | mod fonts :: mod tables :: impl crate::fonts::parsing::Position<NameRecord> :: string_offset
//@@ sub /crate::fonts::parsing::Position</ => Position<
//@@ ret r
//@@ spec
    ensures r.byte_position == sat(self.byte_position + 10)
//@@ end
}
// CmapHeader: the offsets below are those of the OpenType specification
//@@ item victor/src/fonts/tables.rs | struct CmapHeader
//@@ end
global layout CmapHeader is size == 4, align == 2;
impl SfntTable for CmapHeader {
    open spec fn tag_spec() -> Tag { Tag([99u8, 109u8, 97u8, 112u8]) }
//@@ item @expanded | mod fonts :: mod tables :: impl crate::fonts::SfntTable for CmapHeader :: TAG
//@@ sub /const TAG: Tag = Tag\(\*b"(.)(.)(.)(.)"\);/ => fn tag() -> (r: Tag) { Tag([b'\1', b'\2', b'\3', b'\4']) }
//@@ end
}
impl Position<CmapHeader> {
//@@ fn @expanded | mod fonts :: mod tables :: impl crate::fonts::parsing::Position<CmapHeader> :: num_tables
//@@ sub /crate::fonts::parsing::Position</ => Position<
//@@ ret r
//@@ spec
    ensures r.byte_position == sat(self.byte_position + 2)
//@@ end
}
// CmapEncodingRecord: the offsets below are those of the OpenType specification
//@@ item victor/src/fonts/tables.rs | struct CmapEncodingRecord
//@@ end
global layout CmapEncodingRecord is size == 8, align == 4;
impl Position<CmapEncodingRecord> {
//@@ fn @expanded | mod fonts :: mod tables :: impl crate::fonts::parsing::Position<CmapEncodingRecord> :: platform_id
//@@ sub /crate::fonts::parsing::Position</ => Position<
//@@ ret r
//@@ spec
    ensures r.byte_position == sat(self.byte_position + 0)
//@@ end
//@@ fn @expanded | mod fonts :: mod tables :: impl crate::fonts::parsing::Position<CmapEncodingRecord> :: encoding_id
//@@ sub /crate::fonts::parsing::Position</ => Position<
//@@ ret r
//@@ spec
    ensures r.byte_position == sat(self.byte_position + 2)
//@@ end
//@@ fn @expanded | mod fonts :: mod tables :: impl crate::fonts::parsing::Position<CmapEncodingRecord> :: subtable_offset
//@@ sub /crate::fonts::parsing::Position</ => Position<
//@@ ret r
//@@ spec
    ensures r.byte_position == sat(self.byte_position + 4)
//@@ end
}
// CmapFormat4Header: the offsets below are those of the OpenType specification
//@@ item victor/src/fonts/tables.rs | struct CmapFormat4Header
//@@ end
global layout CmapFormat4Header is size == 14, align == 2;
impl Position<CmapFormat4Header> {
//@@ fn @expanded | mod fonts :: mod tables :: impl crate::fonts::parsing::Position<CmapFormat4Header> :: segment_count_x2
//@@ sub /crate::fonts::parsing::Position</ => Position<
//@@ ret r
//@@ spec
    ensures r.byte_position == sat(self.byte_position + 6)
//@@ end
}
// CmapFormat12Header: the offsets below are those of the OpenType specification
//@@ item victor/src/fonts/tables.rs | struct CmapFormat12Header
//@@ end
global layout CmapFormat12Header is size == 16, align == 4;
impl Position<CmapFormat12Header> {
//@@ fn @expanded | mod fonts :: mod tables :: impl crate::fonts::parsing::Position<CmapFormat12Header> :: num_groups
//@@ sub /crate::fonts::parsing::Position</ => Position<
//@@ ret r
//@@ spec
    ensures r.byte_position == sat(self.byte_position + 12)
//@@ end
}
// CmapFormat12Group: the offsets below are those of the OpenType specification
//@@ item victor/src/fonts/tables.rs | struct CmapFormat12Group
//@@ end
global layout CmapFormat12Group is size == 12, align == 4;
impl Position<CmapFormat12Group> {
//@@ fn @expanded | mod fonts :: mod tables :: impl crate::fonts::parsing::Position<CmapFormat12Group> :: start_char_code
//@@ sub /crate::fonts::parsing::Position</ => Position<
//@@ ret r
//@@ spec
    ensures r.byte_position == sat(self.byte_position + 0)
//@@ end
//@@ fn @expanded | mod fonts :: mod tables :: impl crate::fonts::parsing::Position<CmapFormat12Group> :: end_char_code
//@@ sub /crate::fonts::parsing::Position</ => Position<
//@@ ret r
//@@ spec
    ensures r.byte_position == sat(self.byte_position + 4)
//@@ end
//@@ fn @expanded | mod fonts :: mod tables :: impl crate::fonts::parsing::Position<CmapFormat12Group> :: start_glyph_id
//@@ sub /crate::fonts::parsing::Position</ => Position<
//@@ ret r
//@@ spec
    ensures r.byte_position == sat(self.byte_position + 8)
//@@ end
}
// FontHeader: the offsets below are those of the OpenType specification
//@@ item victor/src/fonts/tables.rs | struct FontHeader
//@@ end
global layout FontHeader is size == 56, align == 8;
impl SfntTable for FontHeader {
    open spec fn tag_spec() -> Tag { Tag([104u8, 101u8, 97u8, 100u8]) }
//@@ item @expanded | mod fonts :: mod tables :: impl crate::fonts::SfntTable for FontHeader :: TAG
//@@ sub /const TAG: Tag = Tag\(\*b"(.)(.)(.)(.)"\);/ => fn tag() -> (r: Tag) { Tag([b'\1', b'\2', b'\3', b'\4']) }
//@@ end
}
impl Position<FontHeader> {
//@@ fn @expanded | mod fonts :: mod tables :: impl crate::fonts::parsing::Position<FontHeader> :: units_per_em
//@@ sub /crate::fonts::parsing::Position</ => Position<
//@@ ret r
//@@ spec
    ensures r.byte_position == sat(self.byte_position + 18)
//@@ end
//@@ fn @expanded | mod fonts :: mod tables :: impl crate::fonts::parsing::Position<FontHeader> :: min_x
//@@ sub /crate::fonts::parsing::Position</ => Position<
//@@ ret r
//@@ spec
    ensures r.byte_position == sat(self.byte_position + 36)
//@@ end
//@@ fn @expanded | mod fonts :: mod tables :: impl crate::fonts::parsing::Position<FontHeader> :: min_y
//@@ sub /crate::fonts::parsing::Position</ => Position<
//@@ ret r
//@@ spec
    ensures r.byte_position == sat(self.byte_position + 38)
//@@ end
//@@ fn @expanded | mod fonts :: mod tables :: impl crate::fonts::parsing::Position<FontHeader> :: max_x
//@@ sub /crate::fonts::parsing::Position</ => Position<
//@@ ret r
//@@ spec
    ensures r.byte_position == sat(self.byte_position + 40)
//@@ end
//@@ fn @expanded | mod fonts :: mod tables :: impl crate::fonts::parsing::Position<FontHeader> :: max_y
//@@ sub /crate::fonts::parsing::Position</ => Position<
//@@ ret r
//@@ spec
    ensures r.byte_position == sat(self.byte_position + 42)
//@@ end
}
// HorizontalHeader: the offsets below are those of the OpenType specification
//@@ item victor/src/fonts/tables.rs | struct HorizontalHeader
//@@ end
global layout HorizontalHeader is size == 36, align == 4;
impl SfntTable for HorizontalHeader {
    open spec fn tag_spec() -> Tag { Tag([104u8, 104u8, 101u8, 97u8]) }
//@@ item @expanded | mod fonts :: mod tables :: impl crate::fonts::SfntTable for HorizontalHeader :: TAG
//@@ sub /const TAG: Tag = Tag\(\*b"(.)(.)(.)(.)"\);/ => fn tag() -> (r: Tag) { Tag([b'\1', b'\2', b'\3', b'\4']) }
//@@ end
}
impl Position<HorizontalHeader> {
//@@ fn @expanded | mod fonts :: mod tables :: impl crate::fonts::parsing::Position<HorizontalHeader> :: ascender
//@@ sub /crate::fonts::parsing::Position</ => Position<
//@@ ret r
//@@ spec
    ensures r.byte_position == sat(self.byte_position + 4)
//@@ end
//@@ fn @expanded | mod fonts :: mod tables :: impl crate::fonts::parsing::Position<HorizontalHeader> :: descender
//@@ sub /crate::fonts::parsing::Position</ => Position<
//@@ ret r
//@@ spec
    ensures r.byte_position == sat(self.byte_position + 6)
//@@ end
//@@ fn @expanded | mod fonts :: mod tables :: impl crate::fonts::parsing::Position<HorizontalHeader> :: number_of_long_horizontal_metrics
//@@ sub /crate::fonts::parsing::Position</ => Position<
//@@ ret r
//@@ spec
    ensures r.byte_position == sat(self.byte_position + 34)
//@@ end
}
// LongHorizontalMetricsRecord: the offsets below are those of the OpenType specification
//@@ item victor/src/fonts/tables.rs | struct LongHorizontalMetricsRecord
//@@ end
global layout LongHorizontalMetricsRecord is size == 4, align == 2;
impl SfntTable for LongHorizontalMetricsRecord {
    open spec fn tag_spec() -> Tag { Tag([104u8, 109u8, 116u8, 120u8]) }
//@@ item @expanded | mod fonts :: mod tables :: impl crate::fonts::SfntTable for LongHorizontalMetricsRecord :: TAG
//@@ sub /const TAG: Tag = Tag\(\*b"(.)(.)(.)(.)"\);/ => fn tag() -> (r: Tag) { Tag([b'\1', b'\2', b'\3', b'\4']) }
//@@ end
}
impl Position<LongHorizontalMetricsRecord> {
//@@ fn @expanded | mod fonts :: mod tables :: impl crate::fonts::parsing::Position<LongHorizontalMetricsRecord> :: advance_width
//@@ sub /crate::fonts::parsing::Position</ => Position<
//@@ ret r
//@@ spec
    ensures r.byte_position == sat(self.byte_position + 0)
//@@ end
}
