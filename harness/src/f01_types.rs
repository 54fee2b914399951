{
    reg!(g, "u8", u8);
    reg!(g, "u16", u16);
    reg!(g, "u32", u32);
    reg!(g, "u64", u64);
    reg!(g, "u128", u128);
    reg!(g, "usize", usize);
    reg!(g, "i8", i8);
    reg!(g, "i16", i16);
    reg!(g, "i32", i32);
    reg!(g, "i64", i64);
    reg!(g, "i128", i128);
    reg!(g, "isize", isize);
    reg!(g, "bool", bool);
    reg!(g, "char", char);
    reg!(g, "unit", ());
    reg!(g, "string", String);
    reg!(g, "box str", Box<str>);
    reg!(g, "cstring", std::ffi::CString);
    reg!(g, "osstring", std::ffi::OsString);
    reg!(g, "pathbuf", std::path::PathBuf);
    reg!(g, "nonzero", (std::num::NonZeroU8, std::num::NonZeroU16, std::num::NonZeroU32, std::num::NonZeroU64, std::num::NonZeroU128, std::num::NonZeroUsize));
    reg!(g, "nonzero signed", (std::num::NonZeroI8, std::num::NonZeroI16, std::num::NonZeroI32, std::num::NonZeroI64, std::num::NonZeroI128, std::num::NonZeroIsize));
    reg!(g, "option u32", Option<u32>);
    reg!(g, "option string", Option<String>);
    reg!(g, "result", Result<u32, String>);
    reg!(g, "wrapping", std::num::Wrapping<i64>);
    reg!(g, "phantom", std::marker::PhantomData<u64>);
    reg!(g, "vec u8", Vec<u8>);
    reg!(g, "vec u32", Vec<u32>);
    reg!(g, "vec i128", Vec<i128>);
    reg!(g, "vec string", Vec<String>);
    reg!(g, "vec unit", Vec<()>);
    reg!(g, "vec vec", Vec<Vec<i16>>);
    reg!(g, "boxed slice", Box<[u16]>);
    reg!(g, "vecdeque", VecDeque<u32>);
    reg!(g, "vecdeque string", VecDeque<String>);
    reg!(g, "btreeset", BTreeSet<i64>);
    reg!(g, "hashset", HashSet<String>);
    reg!(g, "btreemap", BTreeMap<String, u64>);
    reg!(g, "btreemap int", BTreeMap<i32, String>);
    reg!(g, "btreemap u64", BTreeMap<u64, Vec<u8>>);
    reg!(g, "btreemap i128", BTreeMap<i128, ()>);
    reg!(g, "hashmap", HashMap<u16, Option<i64>>, no = [packed]);
    reg!(g, "array", [u32; 5]);
    reg!(g, "array string", [String; 2]);
    reg!(g, "array empty", [u32; 0]);
    reg!(g, "tuple1", (u32,));
    reg!(g, "tuple12", (u8, i8, u16, i16, u32, i32, u64, i64, bool, char, String, Option<u8>));
    reg!(g, "box", Box<String>);
    reg!(g, "rc", std::rc::Rc<Vec<u32>>);
    reg!(g, "arc", std::sync::Arc<Nested3>);
    reg!(g, "range", std::ops::Range<u32>);
    reg!(g, "range incl", std::ops::RangeInclusive<i64>);
    reg!(g, "range from", std::ops::RangeFrom<u8>);
    reg!(g, "range to", std::ops::RangeTo<u8>);
    reg!(g, "range to incl", std::ops::RangeToInclusive<u128>);
    reg!(g, "range full", std::ops::RangeFull);
    reg!(g, "ipv4", std::net::Ipv4Addr);
    reg!(g, "ipv6", std::net::Ipv6Addr);
    reg!(g, "ip", std::net::IpAddr);
    reg!(g, "sockv4", std::net::SocketAddrV4);
    reg!(g, "sockv6", std::net::SocketAddrV6, no = [text, bintext]);
    reg!(g, "sock", std::net::SocketAddr, no = [text, bintext]);
    reg!(g, "struct prims", Prims);
    reg!(g, "struct strs", Strs, no = [packed]);
    reg!(g, "struct nested", Nested, no = [packed]);
    reg!(g, "tuple struct", Tup);
    reg!(g, "unit tuple struct", Unit0);
    reg!(g, "enum", En);
    reg!(g, "packed", PackedS);
    reg!(g, "packed bits", PackedBits);
    reg!(g, "packed pad", PackedPad);
    reg!(g, "packed bool", PackedBool);
    reg!(g, "vec packed", Vec<PackedBits>);
    reg!(g, "vec packed pad", Vec<PackedPad>);
    reg!(g, "vec packed bool", Vec<PackedBool>);
    reg!(g, "transparent", Transparent);
    reg!(g, "transparent u", TransparentU);
    reg!(g, "fielded", Fielded, no = [packed]);
    reg!(g, "empty", Empty);
    reg!(g, "named", Named, no = [packed]);
    reg!(g, "named enum", NamedE);
    reg!(g, "colls", Colls, no = [packed]);
    reg!(g, "everything", Everything, no = [packed]);
    reg!(g, "f32", f32);
    reg!(g, "f64", f64);
}
