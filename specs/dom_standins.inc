// ---- stand-ins for the types of dependencies; none of the verified code looks inside of them
pub struct QualName;
pub struct LayoutData;
pub struct Attribute;

