// Generated by gen_shapes.py.
define_archive!(A0, B0, "archive A0 {\n }"; ; ; ; ; );
impl View for A0 {
    fn part(&self, i: usize) -> Option<Val> { match i {  _ => unreachable!() } }
    fn sub(&self, i: usize) -> Option<&dyn View> { match i {  _ => unreachable!() } }
    fn copy(&self) -> Box<dyn View> { Box::new(self.clone()) }
}
impl Build for B0 {
    fn write(&self, i: usize, c: &Content, way: usize) -> Result<(), String> { match i {  _ => unreachable!() } }
    fn sub(&self, i: usize) -> Result<Box<dyn Build>, flatdata::ResourceStorageError> { match i {  _ => unreachable!() } }
}
define_archive!(A1, B1, "archive A1 {\n r : S;\n}"; (r, set_r, Ea, "struct schema", false); ; ; ; );
impl View for A1 {
    fn part(&self, i: usize) -> Option<Val> { match i { 0 => Some(Val::Struct(Ea::get(&self.r()))), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Option<&dyn View> { match i {  _ => unreachable!() } }
    fn copy(&self) -> Box<dyn View> { Box::new(self.clone()) }
}
impl Build for B1 {
    fn write(&self, i: usize, c: &Content, way: usize) -> Result<(), String> { match i { 0 => set_struct(c, &|x| self.set_r(x)), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Result<Box<dyn Build>, flatdata::ResourceStorageError> { match i {  _ => unreachable!() } }
}
define_archive!(A2, B2, "archive A2 {\n @optional r : S;\n}"; (r, set_r, Ea, "struct schema", true); ; ; ; );
impl View for A2 {
    fn part(&self, i: usize) -> Option<Val> { match i { 0 => self.r().map(|x| Val::Struct(Ea::get(&x))), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Option<&dyn View> { match i {  _ => unreachable!() } }
    fn copy(&self) -> Box<dyn View> { Box::new(self.clone()) }
}
impl Build for B2 {
    fn write(&self, i: usize, c: &Content, way: usize) -> Result<(), String> { match i { 0 => set_struct(c, &|x| self.set_r(x)), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Result<Box<dyn Build>, flatdata::ResourceStorageError> { match i {  _ => unreachable!() } }
}
define_archive!(A3, B3, "archive A3 {\n r : V;\n}"; ; (r, set_r, start_r, E7, "vector schema", false); ; ; );
impl View for A3 {
    fn part(&self, i: usize) -> Option<Val> { match i { 0 => Some(Val::Vector(array_vals(&self.r()))), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Option<&dyn View> { match i {  _ => unreachable!() } }
    fn copy(&self) -> Box<dyn View> { Box::new(self.clone()) }
}
impl Build for B3 {
    fn write(&self, i: usize, c: &Content, way: usize) -> Result<(), String> { match i { 0 => set_vector(c, way, &|x| self.set_r(x), &|| self.start_r()), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Result<Box<dyn Build>, flatdata::ResourceStorageError> { match i {  _ => unreachable!() } }
}
define_archive!(A4, B4, "archive A4 {\n @optional r : V;\n}"; ; (r, set_r, start_r, E7, "vector schema", true); ; ; );
impl View for A4 {
    fn part(&self, i: usize) -> Option<Val> { match i { 0 => self.r().map(|x| Val::Vector(array_vals(&x))), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Option<&dyn View> { match i {  _ => unreachable!() } }
    fn copy(&self) -> Box<dyn View> { Box::new(self.clone()) }
}
impl Build for B4 {
    fn write(&self, i: usize, c: &Content, way: usize) -> Result<(), String> { match i { 0 => set_vector(c, way, &|x| self.set_r(x), &|| self.start_r()), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Result<Box<dyn Build>, flatdata::ResourceStorageError> { match i {  _ => unreachable!() } }
}
define_archive!(A5, B5, "archive A5 {\n r : M;\n}"; ; ; (r, start_r, Var3, "multivector schema", r_index, Idx24, false); ; );
impl View for A5 {
    fn part(&self, i: usize) -> Option<Val> { match i { 0 => Some(Val::Multi(view_vals(&self.r()))), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Option<&dyn View> { match i {  _ => unreachable!() } }
    fn copy(&self) -> Box<dyn View> { Box::new(self.clone()) }
}
impl Build for B5 {
    fn write(&self, i: usize, c: &Content, way: usize) -> Result<(), String> { match i { 0 => set_multi(c, &|| self.start_r()), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Result<Box<dyn Build>, flatdata::ResourceStorageError> { match i {  _ => unreachable!() } }
}
define_archive!(A6, B6, "archive A6 {\n @optional r : M;\n}"; ; ; (r, start_r, Var3, "multivector schema", r_index, Idx24, true); ; );
impl View for A6 {
    fn part(&self, i: usize) -> Option<Val> { match i { 0 => self.r().map(|x| Val::Multi(view_vals(&x))), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Option<&dyn View> { match i {  _ => unreachable!() } }
    fn copy(&self) -> Box<dyn View> { Box::new(self.clone()) }
}
impl Build for B6 {
    fn write(&self, i: usize, c: &Content, way: usize) -> Result<(), String> { match i { 0 => set_multi(c, &|| self.start_r()), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Result<Box<dyn Build>, flatdata::ResourceStorageError> { match i {  _ => unreachable!() } }
}
define_archive!(A7, B7, "archive A7 {\n r : R;\n}"; ; ; ; (r, set_r, "raw schema", false); );
impl View for A7 {
    fn part(&self, i: usize) -> Option<Val> { match i { 0 => Some(Val::Raw(self.r().to_vec())), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Option<&dyn View> { match i {  _ => unreachable!() } }
    fn copy(&self) -> Box<dyn View> { Box::new(self.clone()) }
}
impl Build for B7 {
    fn write(&self, i: usize, c: &Content, way: usize) -> Result<(), String> { match i { 0 => set_raw(c, &|x| self.set_r(x)), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Result<Box<dyn Build>, flatdata::ResourceStorageError> { match i {  _ => unreachable!() } }
}
define_archive!(A8, B8, "archive A8 {\n @optional r : R;\n}"; ; ; ; (r, set_r, "raw schema", true); );
impl View for A8 {
    fn part(&self, i: usize) -> Option<Val> { match i { 0 => self.r().map(|x| Val::Raw(x.to_vec())), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Option<&dyn View> { match i {  _ => unreachable!() } }
    fn copy(&self) -> Box<dyn View> { Box::new(self.clone()) }
}
impl Build for B8 {
    fn write(&self, i: usize, c: &Content, way: usize) -> Result<(), String> { match i { 0 => set_raw(c, &|x| self.set_r(x)), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Result<Box<dyn Build>, flatdata::ResourceStorageError> { match i {  _ => unreachable!() } }
}
define_archive!(A9, B9, "archive A9 {\n r : A;\n}"; ; ; ; ; (r, A0, B0, "archive schema", false));
impl View for A9 {
    fn part(&self, i: usize) -> Option<Val> { match i {  _ => unreachable!() } }
    fn sub(&self, i: usize) -> Option<&dyn View> { match i { 0 => Some(self.r()), _ => unreachable!() } }
    fn copy(&self) -> Box<dyn View> { Box::new(self.clone()) }
}
impl Build for B9 {
    fn write(&self, i: usize, c: &Content, way: usize) -> Result<(), String> { match i {  _ => unreachable!() } }
    fn sub(&self, i: usize) -> Result<Box<dyn Build>, flatdata::ResourceStorageError> { match i { 0 => Ok(Box::new(self.r()?)), _ => unreachable!() } }
}
define_archive!(A10, B10, "archive A10 {\n @optional r : A;\n}"; ; ; ; ; (r, A7, B7, "archive schema", true));
impl View for A10 {
    fn part(&self, i: usize) -> Option<Val> { match i {  _ => unreachable!() } }
    fn sub(&self, i: usize) -> Option<&dyn View> { match i { 0 => self.r().as_ref().map(|x| x as &dyn View), _ => unreachable!() } }
    fn copy(&self) -> Box<dyn View> { Box::new(self.clone()) }
}
impl Build for B10 {
    fn write(&self, i: usize, c: &Content, way: usize) -> Result<(), String> { match i {  _ => unreachable!() } }
    fn sub(&self, i: usize) -> Result<Box<dyn Build>, flatdata::ResourceStorageError> { match i { 0 => Ok(Box::new(self.r()?)), _ => unreachable!() } }
}
define_archive!(A11, B11, "archive A11 {\n r : S;\nrr : S;\n}"; (r, set_r, Ea, "struct schema", false), (rr, set_rr, Ea, "struct schema", false); ; ; ; );
impl View for A11 {
    fn part(&self, i: usize) -> Option<Val> { match i { 0 => Some(Val::Struct(Ea::get(&self.r()))), 1 => Some(Val::Struct(Ea::get(&self.rr()))), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Option<&dyn View> { match i {  _ => unreachable!() } }
    fn copy(&self) -> Box<dyn View> { Box::new(self.clone()) }
}
impl Build for B11 {
    fn write(&self, i: usize, c: &Content, way: usize) -> Result<(), String> { match i { 0 => set_struct(c, &|x| self.set_r(x)), 1 => set_struct(c, &|x| self.set_rr(x)), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Result<Box<dyn Build>, flatdata::ResourceStorageError> { match i {  _ => unreachable!() } }
}
define_archive!(A12, B12, "archive A12 {\n r : S;\n@optional rr : S;\n}"; (r, set_r, Ea, "struct schema", false), (rr, set_rr, Ea, "struct schema", true); ; ; ; );
impl View for A12 {
    fn part(&self, i: usize) -> Option<Val> { match i { 0 => Some(Val::Struct(Ea::get(&self.r()))), 1 => self.rr().map(|x| Val::Struct(Ea::get(&x))), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Option<&dyn View> { match i {  _ => unreachable!() } }
    fn copy(&self) -> Box<dyn View> { Box::new(self.clone()) }
}
impl Build for B12 {
    fn write(&self, i: usize, c: &Content, way: usize) -> Result<(), String> { match i { 0 => set_struct(c, &|x| self.set_r(x)), 1 => set_struct(c, &|x| self.set_rr(x)), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Result<Box<dyn Build>, flatdata::ResourceStorageError> { match i {  _ => unreachable!() } }
}
define_archive!(A13, B13, "archive A13 {\n r : S;\nrr : V;\n}"; (r, set_r, Ea, "struct schema", false); (rr, set_rr, start_rr, E7, "vector schema", false); ; ; );
impl View for A13 {
    fn part(&self, i: usize) -> Option<Val> { match i { 0 => Some(Val::Struct(Ea::get(&self.r()))), 1 => Some(Val::Vector(array_vals(&self.rr()))), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Option<&dyn View> { match i {  _ => unreachable!() } }
    fn copy(&self) -> Box<dyn View> { Box::new(self.clone()) }
}
impl Build for B13 {
    fn write(&self, i: usize, c: &Content, way: usize) -> Result<(), String> { match i { 0 => set_struct(c, &|x| self.set_r(x)), 1 => set_vector(c, way, &|x| self.set_rr(x), &|| self.start_rr()), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Result<Box<dyn Build>, flatdata::ResourceStorageError> { match i {  _ => unreachable!() } }
}
define_archive!(A14, B14, "archive A14 {\n r : S;\n@optional rr : V;\n}"; (r, set_r, Ea, "struct schema", false); (rr, set_rr, start_rr, E7, "vector schema", true); ; ; );
impl View for A14 {
    fn part(&self, i: usize) -> Option<Val> { match i { 0 => Some(Val::Struct(Ea::get(&self.r()))), 1 => self.rr().map(|x| Val::Vector(array_vals(&x))), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Option<&dyn View> { match i {  _ => unreachable!() } }
    fn copy(&self) -> Box<dyn View> { Box::new(self.clone()) }
}
impl Build for B14 {
    fn write(&self, i: usize, c: &Content, way: usize) -> Result<(), String> { match i { 0 => set_struct(c, &|x| self.set_r(x)), 1 => set_vector(c, way, &|x| self.set_rr(x), &|| self.start_rr()), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Result<Box<dyn Build>, flatdata::ResourceStorageError> { match i {  _ => unreachable!() } }
}
define_archive!(A15, B15, "archive A15 {\n r : S;\nrr : M;\n}"; (r, set_r, Ea, "struct schema", false); ; (rr, start_rr, Var3, "multivector schema", rr_index, Idx24, false); ; );
impl View for A15 {
    fn part(&self, i: usize) -> Option<Val> { match i { 0 => Some(Val::Struct(Ea::get(&self.r()))), 1 => Some(Val::Multi(view_vals(&self.rr()))), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Option<&dyn View> { match i {  _ => unreachable!() } }
    fn copy(&self) -> Box<dyn View> { Box::new(self.clone()) }
}
impl Build for B15 {
    fn write(&self, i: usize, c: &Content, way: usize) -> Result<(), String> { match i { 0 => set_struct(c, &|x| self.set_r(x)), 1 => set_multi(c, &|| self.start_rr()), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Result<Box<dyn Build>, flatdata::ResourceStorageError> { match i {  _ => unreachable!() } }
}
define_archive!(A16, B16, "archive A16 {\n r : S;\n@optional rr : M;\n}"; (r, set_r, Ea, "struct schema", false); ; (rr, start_rr, Var3, "multivector schema", rr_index, Idx24, true); ; );
impl View for A16 {
    fn part(&self, i: usize) -> Option<Val> { match i { 0 => Some(Val::Struct(Ea::get(&self.r()))), 1 => self.rr().map(|x| Val::Multi(view_vals(&x))), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Option<&dyn View> { match i {  _ => unreachable!() } }
    fn copy(&self) -> Box<dyn View> { Box::new(self.clone()) }
}
impl Build for B16 {
    fn write(&self, i: usize, c: &Content, way: usize) -> Result<(), String> { match i { 0 => set_struct(c, &|x| self.set_r(x)), 1 => set_multi(c, &|| self.start_rr()), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Result<Box<dyn Build>, flatdata::ResourceStorageError> { match i {  _ => unreachable!() } }
}
define_archive!(A17, B17, "archive A17 {\n r : S;\nrr : R;\n}"; (r, set_r, Ea, "struct schema", false); ; ; (rr, set_rr, "raw schema", false); );
impl View for A17 {
    fn part(&self, i: usize) -> Option<Val> { match i { 0 => Some(Val::Struct(Ea::get(&self.r()))), 1 => Some(Val::Raw(self.rr().to_vec())), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Option<&dyn View> { match i {  _ => unreachable!() } }
    fn copy(&self) -> Box<dyn View> { Box::new(self.clone()) }
}
impl Build for B17 {
    fn write(&self, i: usize, c: &Content, way: usize) -> Result<(), String> { match i { 0 => set_struct(c, &|x| self.set_r(x)), 1 => set_raw(c, &|x| self.set_rr(x)), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Result<Box<dyn Build>, flatdata::ResourceStorageError> { match i {  _ => unreachable!() } }
}
define_archive!(A18, B18, "archive A18 {\n r : S;\n@optional rr : R;\n}"; (r, set_r, Ea, "struct schema", false); ; ; (rr, set_rr, "raw schema", true); );
impl View for A18 {
    fn part(&self, i: usize) -> Option<Val> { match i { 0 => Some(Val::Struct(Ea::get(&self.r()))), 1 => self.rr().map(|x| Val::Raw(x.to_vec())), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Option<&dyn View> { match i {  _ => unreachable!() } }
    fn copy(&self) -> Box<dyn View> { Box::new(self.clone()) }
}
impl Build for B18 {
    fn write(&self, i: usize, c: &Content, way: usize) -> Result<(), String> { match i { 0 => set_struct(c, &|x| self.set_r(x)), 1 => set_raw(c, &|x| self.set_rr(x)), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Result<Box<dyn Build>, flatdata::ResourceStorageError> { match i {  _ => unreachable!() } }
}
define_archive!(A19, B19, "archive A19 {\n r : S;\nrr : A;\n}"; (r, set_r, Ea, "struct schema", false); ; ; ; (rr, A0, B0, "archive schema", false));
impl View for A19 {
    fn part(&self, i: usize) -> Option<Val> { match i { 0 => Some(Val::Struct(Ea::get(&self.r()))), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Option<&dyn View> { match i { 0 => Some(self.rr()), _ => unreachable!() } }
    fn copy(&self) -> Box<dyn View> { Box::new(self.clone()) }
}
impl Build for B19 {
    fn write(&self, i: usize, c: &Content, way: usize) -> Result<(), String> { match i { 0 => set_struct(c, &|x| self.set_r(x)), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Result<Box<dyn Build>, flatdata::ResourceStorageError> { match i { 0 => Ok(Box::new(self.rr()?)), _ => unreachable!() } }
}
define_archive!(A20, B20, "archive A20 {\n r : S;\n@optional rr : A;\n}"; (r, set_r, Ea, "struct schema", false); ; ; ; (rr, A7, B7, "archive schema", true));
impl View for A20 {
    fn part(&self, i: usize) -> Option<Val> { match i { 0 => Some(Val::Struct(Ea::get(&self.r()))), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Option<&dyn View> { match i { 0 => self.rr().as_ref().map(|x| x as &dyn View), _ => unreachable!() } }
    fn copy(&self) -> Box<dyn View> { Box::new(self.clone()) }
}
impl Build for B20 {
    fn write(&self, i: usize, c: &Content, way: usize) -> Result<(), String> { match i { 0 => set_struct(c, &|x| self.set_r(x)), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Result<Box<dyn Build>, flatdata::ResourceStorageError> { match i { 0 => Ok(Box::new(self.rr()?)), _ => unreachable!() } }
}
define_archive!(A21, B21, "archive A21 {\n @optional r : S;\nrr : S;\n}"; (r, set_r, Ea, "struct schema", true), (rr, set_rr, Ea, "struct schema", false); ; ; ; );
impl View for A21 {
    fn part(&self, i: usize) -> Option<Val> { match i { 0 => self.r().map(|x| Val::Struct(Ea::get(&x))), 1 => Some(Val::Struct(Ea::get(&self.rr()))), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Option<&dyn View> { match i {  _ => unreachable!() } }
    fn copy(&self) -> Box<dyn View> { Box::new(self.clone()) }
}
impl Build for B21 {
    fn write(&self, i: usize, c: &Content, way: usize) -> Result<(), String> { match i { 0 => set_struct(c, &|x| self.set_r(x)), 1 => set_struct(c, &|x| self.set_rr(x)), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Result<Box<dyn Build>, flatdata::ResourceStorageError> { match i {  _ => unreachable!() } }
}
define_archive!(A22, B22, "archive A22 {\n @optional r : S;\n@optional rr : S;\n}"; (r, set_r, Ea, "struct schema", true), (rr, set_rr, Ea, "struct schema", true); ; ; ; );
impl View for A22 {
    fn part(&self, i: usize) -> Option<Val> { match i { 0 => self.r().map(|x| Val::Struct(Ea::get(&x))), 1 => self.rr().map(|x| Val::Struct(Ea::get(&x))), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Option<&dyn View> { match i {  _ => unreachable!() } }
    fn copy(&self) -> Box<dyn View> { Box::new(self.clone()) }
}
impl Build for B22 {
    fn write(&self, i: usize, c: &Content, way: usize) -> Result<(), String> { match i { 0 => set_struct(c, &|x| self.set_r(x)), 1 => set_struct(c, &|x| self.set_rr(x)), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Result<Box<dyn Build>, flatdata::ResourceStorageError> { match i {  _ => unreachable!() } }
}
define_archive!(A23, B23, "archive A23 {\n @optional r : S;\nrr : V;\n}"; (r, set_r, Ea, "struct schema", true); (rr, set_rr, start_rr, E7, "vector schema", false); ; ; );
impl View for A23 {
    fn part(&self, i: usize) -> Option<Val> { match i { 0 => self.r().map(|x| Val::Struct(Ea::get(&x))), 1 => Some(Val::Vector(array_vals(&self.rr()))), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Option<&dyn View> { match i {  _ => unreachable!() } }
    fn copy(&self) -> Box<dyn View> { Box::new(self.clone()) }
}
impl Build for B23 {
    fn write(&self, i: usize, c: &Content, way: usize) -> Result<(), String> { match i { 0 => set_struct(c, &|x| self.set_r(x)), 1 => set_vector(c, way, &|x| self.set_rr(x), &|| self.start_rr()), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Result<Box<dyn Build>, flatdata::ResourceStorageError> { match i {  _ => unreachable!() } }
}
define_archive!(A24, B24, "archive A24 {\n @optional r : S;\n@optional rr : V;\n}"; (r, set_r, Ea, "struct schema", true); (rr, set_rr, start_rr, E7, "vector schema", true); ; ; );
impl View for A24 {
    fn part(&self, i: usize) -> Option<Val> { match i { 0 => self.r().map(|x| Val::Struct(Ea::get(&x))), 1 => self.rr().map(|x| Val::Vector(array_vals(&x))), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Option<&dyn View> { match i {  _ => unreachable!() } }
    fn copy(&self) -> Box<dyn View> { Box::new(self.clone()) }
}
impl Build for B24 {
    fn write(&self, i: usize, c: &Content, way: usize) -> Result<(), String> { match i { 0 => set_struct(c, &|x| self.set_r(x)), 1 => set_vector(c, way, &|x| self.set_rr(x), &|| self.start_rr()), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Result<Box<dyn Build>, flatdata::ResourceStorageError> { match i {  _ => unreachable!() } }
}
define_archive!(A25, B25, "archive A25 {\n @optional r : S;\nrr : M;\n}"; (r, set_r, Ea, "struct schema", true); ; (rr, start_rr, Var3, "multivector schema", rr_index, Idx24, false); ; );
impl View for A25 {
    fn part(&self, i: usize) -> Option<Val> { match i { 0 => self.r().map(|x| Val::Struct(Ea::get(&x))), 1 => Some(Val::Multi(view_vals(&self.rr()))), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Option<&dyn View> { match i {  _ => unreachable!() } }
    fn copy(&self) -> Box<dyn View> { Box::new(self.clone()) }
}
impl Build for B25 {
    fn write(&self, i: usize, c: &Content, way: usize) -> Result<(), String> { match i { 0 => set_struct(c, &|x| self.set_r(x)), 1 => set_multi(c, &|| self.start_rr()), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Result<Box<dyn Build>, flatdata::ResourceStorageError> { match i {  _ => unreachable!() } }
}
define_archive!(A26, B26, "archive A26 {\n @optional r : S;\n@optional rr : M;\n}"; (r, set_r, Ea, "struct schema", true); ; (rr, start_rr, Var3, "multivector schema", rr_index, Idx24, true); ; );
impl View for A26 {
    fn part(&self, i: usize) -> Option<Val> { match i { 0 => self.r().map(|x| Val::Struct(Ea::get(&x))), 1 => self.rr().map(|x| Val::Multi(view_vals(&x))), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Option<&dyn View> { match i {  _ => unreachable!() } }
    fn copy(&self) -> Box<dyn View> { Box::new(self.clone()) }
}
impl Build for B26 {
    fn write(&self, i: usize, c: &Content, way: usize) -> Result<(), String> { match i { 0 => set_struct(c, &|x| self.set_r(x)), 1 => set_multi(c, &|| self.start_rr()), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Result<Box<dyn Build>, flatdata::ResourceStorageError> { match i {  _ => unreachable!() } }
}
define_archive!(A27, B27, "archive A27 {\n @optional r : S;\nrr : R;\n}"; (r, set_r, Ea, "struct schema", true); ; ; (rr, set_rr, "raw schema", false); );
impl View for A27 {
    fn part(&self, i: usize) -> Option<Val> { match i { 0 => self.r().map(|x| Val::Struct(Ea::get(&x))), 1 => Some(Val::Raw(self.rr().to_vec())), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Option<&dyn View> { match i {  _ => unreachable!() } }
    fn copy(&self) -> Box<dyn View> { Box::new(self.clone()) }
}
impl Build for B27 {
    fn write(&self, i: usize, c: &Content, way: usize) -> Result<(), String> { match i { 0 => set_struct(c, &|x| self.set_r(x)), 1 => set_raw(c, &|x| self.set_rr(x)), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Result<Box<dyn Build>, flatdata::ResourceStorageError> { match i {  _ => unreachable!() } }
}
define_archive!(A28, B28, "archive A28 {\n @optional r : S;\n@optional rr : R;\n}"; (r, set_r, Ea, "struct schema", true); ; ; (rr, set_rr, "raw schema", true); );
impl View for A28 {
    fn part(&self, i: usize) -> Option<Val> { match i { 0 => self.r().map(|x| Val::Struct(Ea::get(&x))), 1 => self.rr().map(|x| Val::Raw(x.to_vec())), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Option<&dyn View> { match i {  _ => unreachable!() } }
    fn copy(&self) -> Box<dyn View> { Box::new(self.clone()) }
}
impl Build for B28 {
    fn write(&self, i: usize, c: &Content, way: usize) -> Result<(), String> { match i { 0 => set_struct(c, &|x| self.set_r(x)), 1 => set_raw(c, &|x| self.set_rr(x)), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Result<Box<dyn Build>, flatdata::ResourceStorageError> { match i {  _ => unreachable!() } }
}
define_archive!(A29, B29, "archive A29 {\n @optional r : S;\nrr : A;\n}"; (r, set_r, Ea, "struct schema", true); ; ; ; (rr, A2, B2, "archive schema", false));
impl View for A29 {
    fn part(&self, i: usize) -> Option<Val> { match i { 0 => self.r().map(|x| Val::Struct(Ea::get(&x))), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Option<&dyn View> { match i { 0 => Some(self.rr()), _ => unreachable!() } }
    fn copy(&self) -> Box<dyn View> { Box::new(self.clone()) }
}
impl Build for B29 {
    fn write(&self, i: usize, c: &Content, way: usize) -> Result<(), String> { match i { 0 => set_struct(c, &|x| self.set_r(x)), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Result<Box<dyn Build>, flatdata::ResourceStorageError> { match i { 0 => Ok(Box::new(self.rr()?)), _ => unreachable!() } }
}
define_archive!(A30, B30, "archive A30 {\n @optional r : S;\n@optional rr : A;\n}"; (r, set_r, Ea, "struct schema", true); ; ; ; (rr, A9, B9, "archive schema", true));
impl View for A30 {
    fn part(&self, i: usize) -> Option<Val> { match i { 0 => self.r().map(|x| Val::Struct(Ea::get(&x))), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Option<&dyn View> { match i { 0 => self.rr().as_ref().map(|x| x as &dyn View), _ => unreachable!() } }
    fn copy(&self) -> Box<dyn View> { Box::new(self.clone()) }
}
impl Build for B30 {
    fn write(&self, i: usize, c: &Content, way: usize) -> Result<(), String> { match i { 0 => set_struct(c, &|x| self.set_r(x)), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Result<Box<dyn Build>, flatdata::ResourceStorageError> { match i { 0 => Ok(Box::new(self.rr()?)), _ => unreachable!() } }
}
define_archive!(A31, B31, "archive A31 {\n r : V;\nrr : V;\n}"; ; (r, set_r, start_r, E7, "vector schema", false), (rr, set_rr, start_rr, E7, "vector schema", false); ; ; );
impl View for A31 {
    fn part(&self, i: usize) -> Option<Val> { match i { 0 => Some(Val::Vector(array_vals(&self.r()))), 1 => Some(Val::Vector(array_vals(&self.rr()))), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Option<&dyn View> { match i {  _ => unreachable!() } }
    fn copy(&self) -> Box<dyn View> { Box::new(self.clone()) }
}
impl Build for B31 {
    fn write(&self, i: usize, c: &Content, way: usize) -> Result<(), String> { match i { 0 => set_vector(c, way, &|x| self.set_r(x), &|| self.start_r()), 1 => set_vector(c, way, &|x| self.set_rr(x), &|| self.start_rr()), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Result<Box<dyn Build>, flatdata::ResourceStorageError> { match i {  _ => unreachable!() } }
}
define_archive!(A32, B32, "archive A32 {\n r : V;\n@optional rr : V;\n}"; ; (r, set_r, start_r, E7, "vector schema", false), (rr, set_rr, start_rr, E7, "vector schema", true); ; ; );
impl View for A32 {
    fn part(&self, i: usize) -> Option<Val> { match i { 0 => Some(Val::Vector(array_vals(&self.r()))), 1 => self.rr().map(|x| Val::Vector(array_vals(&x))), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Option<&dyn View> { match i {  _ => unreachable!() } }
    fn copy(&self) -> Box<dyn View> { Box::new(self.clone()) }
}
impl Build for B32 {
    fn write(&self, i: usize, c: &Content, way: usize) -> Result<(), String> { match i { 0 => set_vector(c, way, &|x| self.set_r(x), &|| self.start_r()), 1 => set_vector(c, way, &|x| self.set_rr(x), &|| self.start_rr()), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Result<Box<dyn Build>, flatdata::ResourceStorageError> { match i {  _ => unreachable!() } }
}
define_archive!(A33, B33, "archive A33 {\n r : V;\nrr : M;\n}"; ; (r, set_r, start_r, E7, "vector schema", false); (rr, start_rr, Var3, "multivector schema", rr_index, Idx24, false); ; );
impl View for A33 {
    fn part(&self, i: usize) -> Option<Val> { match i { 0 => Some(Val::Vector(array_vals(&self.r()))), 1 => Some(Val::Multi(view_vals(&self.rr()))), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Option<&dyn View> { match i {  _ => unreachable!() } }
    fn copy(&self) -> Box<dyn View> { Box::new(self.clone()) }
}
impl Build for B33 {
    fn write(&self, i: usize, c: &Content, way: usize) -> Result<(), String> { match i { 0 => set_vector(c, way, &|x| self.set_r(x), &|| self.start_r()), 1 => set_multi(c, &|| self.start_rr()), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Result<Box<dyn Build>, flatdata::ResourceStorageError> { match i {  _ => unreachable!() } }
}
define_archive!(A34, B34, "archive A34 {\n r : V;\n@optional rr : M;\n}"; ; (r, set_r, start_r, E7, "vector schema", false); (rr, start_rr, Var3, "multivector schema", rr_index, Idx24, true); ; );
impl View for A34 {
    fn part(&self, i: usize) -> Option<Val> { match i { 0 => Some(Val::Vector(array_vals(&self.r()))), 1 => self.rr().map(|x| Val::Multi(view_vals(&x))), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Option<&dyn View> { match i {  _ => unreachable!() } }
    fn copy(&self) -> Box<dyn View> { Box::new(self.clone()) }
}
impl Build for B34 {
    fn write(&self, i: usize, c: &Content, way: usize) -> Result<(), String> { match i { 0 => set_vector(c, way, &|x| self.set_r(x), &|| self.start_r()), 1 => set_multi(c, &|| self.start_rr()), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Result<Box<dyn Build>, flatdata::ResourceStorageError> { match i {  _ => unreachable!() } }
}
define_archive!(A35, B35, "archive A35 {\n r : V;\nrr : R;\n}"; ; (r, set_r, start_r, E7, "vector schema", false); ; (rr, set_rr, "raw schema", false); );
impl View for A35 {
    fn part(&self, i: usize) -> Option<Val> { match i { 0 => Some(Val::Vector(array_vals(&self.r()))), 1 => Some(Val::Raw(self.rr().to_vec())), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Option<&dyn View> { match i {  _ => unreachable!() } }
    fn copy(&self) -> Box<dyn View> { Box::new(self.clone()) }
}
impl Build for B35 {
    fn write(&self, i: usize, c: &Content, way: usize) -> Result<(), String> { match i { 0 => set_vector(c, way, &|x| self.set_r(x), &|| self.start_r()), 1 => set_raw(c, &|x| self.set_rr(x)), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Result<Box<dyn Build>, flatdata::ResourceStorageError> { match i {  _ => unreachable!() } }
}
define_archive!(A36, B36, "archive A36 {\n r : V;\n@optional rr : R;\n}"; ; (r, set_r, start_r, E7, "vector schema", false); ; (rr, set_rr, "raw schema", true); );
impl View for A36 {
    fn part(&self, i: usize) -> Option<Val> { match i { 0 => Some(Val::Vector(array_vals(&self.r()))), 1 => self.rr().map(|x| Val::Raw(x.to_vec())), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Option<&dyn View> { match i {  _ => unreachable!() } }
    fn copy(&self) -> Box<dyn View> { Box::new(self.clone()) }
}
impl Build for B36 {
    fn write(&self, i: usize, c: &Content, way: usize) -> Result<(), String> { match i { 0 => set_vector(c, way, &|x| self.set_r(x), &|| self.start_r()), 1 => set_raw(c, &|x| self.set_rr(x)), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Result<Box<dyn Build>, flatdata::ResourceStorageError> { match i {  _ => unreachable!() } }
}
define_archive!(A37, B37, "archive A37 {\n r : V;\nrr : A;\n}"; ; (r, set_r, start_r, E7, "vector schema", false); ; ; (rr, A2, B2, "archive schema", false));
impl View for A37 {
    fn part(&self, i: usize) -> Option<Val> { match i { 0 => Some(Val::Vector(array_vals(&self.r()))), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Option<&dyn View> { match i { 0 => Some(self.rr()), _ => unreachable!() } }
    fn copy(&self) -> Box<dyn View> { Box::new(self.clone()) }
}
impl Build for B37 {
    fn write(&self, i: usize, c: &Content, way: usize) -> Result<(), String> { match i { 0 => set_vector(c, way, &|x| self.set_r(x), &|| self.start_r()), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Result<Box<dyn Build>, flatdata::ResourceStorageError> { match i { 0 => Ok(Box::new(self.rr()?)), _ => unreachable!() } }
}
define_archive!(A38, B38, "archive A38 {\n r : V;\n@optional rr : A;\n}"; ; (r, set_r, start_r, E7, "vector schema", false); ; ; (rr, A9, B9, "archive schema", true));
impl View for A38 {
    fn part(&self, i: usize) -> Option<Val> { match i { 0 => Some(Val::Vector(array_vals(&self.r()))), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Option<&dyn View> { match i { 0 => self.rr().as_ref().map(|x| x as &dyn View), _ => unreachable!() } }
    fn copy(&self) -> Box<dyn View> { Box::new(self.clone()) }
}
impl Build for B38 {
    fn write(&self, i: usize, c: &Content, way: usize) -> Result<(), String> { match i { 0 => set_vector(c, way, &|x| self.set_r(x), &|| self.start_r()), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Result<Box<dyn Build>, flatdata::ResourceStorageError> { match i { 0 => Ok(Box::new(self.rr()?)), _ => unreachable!() } }
}
define_archive!(A39, B39, "archive A39 {\n @optional r : V;\nrr : V;\n}"; ; (r, set_r, start_r, E7, "vector schema", true), (rr, set_rr, start_rr, E7, "vector schema", false); ; ; );
impl View for A39 {
    fn part(&self, i: usize) -> Option<Val> { match i { 0 => self.r().map(|x| Val::Vector(array_vals(&x))), 1 => Some(Val::Vector(array_vals(&self.rr()))), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Option<&dyn View> { match i {  _ => unreachable!() } }
    fn copy(&self) -> Box<dyn View> { Box::new(self.clone()) }
}
impl Build for B39 {
    fn write(&self, i: usize, c: &Content, way: usize) -> Result<(), String> { match i { 0 => set_vector(c, way, &|x| self.set_r(x), &|| self.start_r()), 1 => set_vector(c, way, &|x| self.set_rr(x), &|| self.start_rr()), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Result<Box<dyn Build>, flatdata::ResourceStorageError> { match i {  _ => unreachable!() } }
}
define_archive!(A40, B40, "archive A40 {\n @optional r : V;\n@optional rr : V;\n}"; ; (r, set_r, start_r, E7, "vector schema", true), (rr, set_rr, start_rr, E7, "vector schema", true); ; ; );
impl View for A40 {
    fn part(&self, i: usize) -> Option<Val> { match i { 0 => self.r().map(|x| Val::Vector(array_vals(&x))), 1 => self.rr().map(|x| Val::Vector(array_vals(&x))), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Option<&dyn View> { match i {  _ => unreachable!() } }
    fn copy(&self) -> Box<dyn View> { Box::new(self.clone()) }
}
impl Build for B40 {
    fn write(&self, i: usize, c: &Content, way: usize) -> Result<(), String> { match i { 0 => set_vector(c, way, &|x| self.set_r(x), &|| self.start_r()), 1 => set_vector(c, way, &|x| self.set_rr(x), &|| self.start_rr()), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Result<Box<dyn Build>, flatdata::ResourceStorageError> { match i {  _ => unreachable!() } }
}
define_archive!(A41, B41, "archive A41 {\n @optional r : V;\nrr : M;\n}"; ; (r, set_r, start_r, E7, "vector schema", true); (rr, start_rr, Var3, "multivector schema", rr_index, Idx24, false); ; );
impl View for A41 {
    fn part(&self, i: usize) -> Option<Val> { match i { 0 => self.r().map(|x| Val::Vector(array_vals(&x))), 1 => Some(Val::Multi(view_vals(&self.rr()))), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Option<&dyn View> { match i {  _ => unreachable!() } }
    fn copy(&self) -> Box<dyn View> { Box::new(self.clone()) }
}
impl Build for B41 {
    fn write(&self, i: usize, c: &Content, way: usize) -> Result<(), String> { match i { 0 => set_vector(c, way, &|x| self.set_r(x), &|| self.start_r()), 1 => set_multi(c, &|| self.start_rr()), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Result<Box<dyn Build>, flatdata::ResourceStorageError> { match i {  _ => unreachable!() } }
}
define_archive!(A42, B42, "archive A42 {\n @optional r : V;\n@optional rr : M;\n}"; ; (r, set_r, start_r, E7, "vector schema", true); (rr, start_rr, Var3, "multivector schema", rr_index, Idx24, true); ; );
impl View for A42 {
    fn part(&self, i: usize) -> Option<Val> { match i { 0 => self.r().map(|x| Val::Vector(array_vals(&x))), 1 => self.rr().map(|x| Val::Multi(view_vals(&x))), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Option<&dyn View> { match i {  _ => unreachable!() } }
    fn copy(&self) -> Box<dyn View> { Box::new(self.clone()) }
}
impl Build for B42 {
    fn write(&self, i: usize, c: &Content, way: usize) -> Result<(), String> { match i { 0 => set_vector(c, way, &|x| self.set_r(x), &|| self.start_r()), 1 => set_multi(c, &|| self.start_rr()), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Result<Box<dyn Build>, flatdata::ResourceStorageError> { match i {  _ => unreachable!() } }
}
define_archive!(A43, B43, "archive A43 {\n @optional r : V;\nrr : R;\n}"; ; (r, set_r, start_r, E7, "vector schema", true); ; (rr, set_rr, "raw schema", false); );
impl View for A43 {
    fn part(&self, i: usize) -> Option<Val> { match i { 0 => self.r().map(|x| Val::Vector(array_vals(&x))), 1 => Some(Val::Raw(self.rr().to_vec())), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Option<&dyn View> { match i {  _ => unreachable!() } }
    fn copy(&self) -> Box<dyn View> { Box::new(self.clone()) }
}
impl Build for B43 {
    fn write(&self, i: usize, c: &Content, way: usize) -> Result<(), String> { match i { 0 => set_vector(c, way, &|x| self.set_r(x), &|| self.start_r()), 1 => set_raw(c, &|x| self.set_rr(x)), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Result<Box<dyn Build>, flatdata::ResourceStorageError> { match i {  _ => unreachable!() } }
}
define_archive!(A44, B44, "archive A44 {\n @optional r : V;\n@optional rr : R;\n}"; ; (r, set_r, start_r, E7, "vector schema", true); ; (rr, set_rr, "raw schema", true); );
impl View for A44 {
    fn part(&self, i: usize) -> Option<Val> { match i { 0 => self.r().map(|x| Val::Vector(array_vals(&x))), 1 => self.rr().map(|x| Val::Raw(x.to_vec())), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Option<&dyn View> { match i {  _ => unreachable!() } }
    fn copy(&self) -> Box<dyn View> { Box::new(self.clone()) }
}
impl Build for B44 {
    fn write(&self, i: usize, c: &Content, way: usize) -> Result<(), String> { match i { 0 => set_vector(c, way, &|x| self.set_r(x), &|| self.start_r()), 1 => set_raw(c, &|x| self.set_rr(x)), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Result<Box<dyn Build>, flatdata::ResourceStorageError> { match i {  _ => unreachable!() } }
}
define_archive!(A45, B45, "archive A45 {\n @optional r : V;\nrr : A;\n}"; ; (r, set_r, start_r, E7, "vector schema", true); ; ; (rr, A2, B2, "archive schema", false));
impl View for A45 {
    fn part(&self, i: usize) -> Option<Val> { match i { 0 => self.r().map(|x| Val::Vector(array_vals(&x))), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Option<&dyn View> { match i { 0 => Some(self.rr()), _ => unreachable!() } }
    fn copy(&self) -> Box<dyn View> { Box::new(self.clone()) }
}
impl Build for B45 {
    fn write(&self, i: usize, c: &Content, way: usize) -> Result<(), String> { match i { 0 => set_vector(c, way, &|x| self.set_r(x), &|| self.start_r()), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Result<Box<dyn Build>, flatdata::ResourceStorageError> { match i { 0 => Ok(Box::new(self.rr()?)), _ => unreachable!() } }
}
define_archive!(A46, B46, "archive A46 {\n @optional r : V;\n@optional rr : A;\n}"; ; (r, set_r, start_r, E7, "vector schema", true); ; ; (rr, A9, B9, "archive schema", true));
impl View for A46 {
    fn part(&self, i: usize) -> Option<Val> { match i { 0 => self.r().map(|x| Val::Vector(array_vals(&x))), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Option<&dyn View> { match i { 0 => self.rr().as_ref().map(|x| x as &dyn View), _ => unreachable!() } }
    fn copy(&self) -> Box<dyn View> { Box::new(self.clone()) }
}
impl Build for B46 {
    fn write(&self, i: usize, c: &Content, way: usize) -> Result<(), String> { match i { 0 => set_vector(c, way, &|x| self.set_r(x), &|| self.start_r()), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Result<Box<dyn Build>, flatdata::ResourceStorageError> { match i { 0 => Ok(Box::new(self.rr()?)), _ => unreachable!() } }
}
define_archive!(A47, B47, "archive A47 {\n r : M;\nrr : M;\n}"; ; ; (r, start_r, Var3, "multivector schema", r_index, Idx24, false), (rr, start_rr, Var3, "multivector schema", rr_index, Idx24, false); ; );
impl View for A47 {
    fn part(&self, i: usize) -> Option<Val> { match i { 0 => Some(Val::Multi(view_vals(&self.r()))), 1 => Some(Val::Multi(view_vals(&self.rr()))), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Option<&dyn View> { match i {  _ => unreachable!() } }
    fn copy(&self) -> Box<dyn View> { Box::new(self.clone()) }
}
impl Build for B47 {
    fn write(&self, i: usize, c: &Content, way: usize) -> Result<(), String> { match i { 0 => set_multi(c, &|| self.start_r()), 1 => set_multi(c, &|| self.start_rr()), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Result<Box<dyn Build>, flatdata::ResourceStorageError> { match i {  _ => unreachable!() } }
}
define_archive!(A48, B48, "archive A48 {\n r : M;\n@optional rr : M;\n}"; ; ; (r, start_r, Var3, "multivector schema", r_index, Idx24, false), (rr, start_rr, Var3, "multivector schema", rr_index, Idx24, true); ; );
impl View for A48 {
    fn part(&self, i: usize) -> Option<Val> { match i { 0 => Some(Val::Multi(view_vals(&self.r()))), 1 => self.rr().map(|x| Val::Multi(view_vals(&x))), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Option<&dyn View> { match i {  _ => unreachable!() } }
    fn copy(&self) -> Box<dyn View> { Box::new(self.clone()) }
}
impl Build for B48 {
    fn write(&self, i: usize, c: &Content, way: usize) -> Result<(), String> { match i { 0 => set_multi(c, &|| self.start_r()), 1 => set_multi(c, &|| self.start_rr()), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Result<Box<dyn Build>, flatdata::ResourceStorageError> { match i {  _ => unreachable!() } }
}
define_archive!(A49, B49, "archive A49 {\n r : M;\nrr : R;\n}"; ; ; (r, start_r, Var3, "multivector schema", r_index, Idx24, false); (rr, set_rr, "raw schema", false); );
impl View for A49 {
    fn part(&self, i: usize) -> Option<Val> { match i { 0 => Some(Val::Multi(view_vals(&self.r()))), 1 => Some(Val::Raw(self.rr().to_vec())), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Option<&dyn View> { match i {  _ => unreachable!() } }
    fn copy(&self) -> Box<dyn View> { Box::new(self.clone()) }
}
impl Build for B49 {
    fn write(&self, i: usize, c: &Content, way: usize) -> Result<(), String> { match i { 0 => set_multi(c, &|| self.start_r()), 1 => set_raw(c, &|x| self.set_rr(x)), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Result<Box<dyn Build>, flatdata::ResourceStorageError> { match i {  _ => unreachable!() } }
}
define_archive!(A50, B50, "archive A50 {\n r : M;\n@optional rr : R;\n}"; ; ; (r, start_r, Var3, "multivector schema", r_index, Idx24, false); (rr, set_rr, "raw schema", true); );
impl View for A50 {
    fn part(&self, i: usize) -> Option<Val> { match i { 0 => Some(Val::Multi(view_vals(&self.r()))), 1 => self.rr().map(|x| Val::Raw(x.to_vec())), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Option<&dyn View> { match i {  _ => unreachable!() } }
    fn copy(&self) -> Box<dyn View> { Box::new(self.clone()) }
}
impl Build for B50 {
    fn write(&self, i: usize, c: &Content, way: usize) -> Result<(), String> { match i { 0 => set_multi(c, &|| self.start_r()), 1 => set_raw(c, &|x| self.set_rr(x)), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Result<Box<dyn Build>, flatdata::ResourceStorageError> { match i {  _ => unreachable!() } }
}
define_archive!(A51, B51, "archive A51 {\n r : M;\nrr : A;\n}"; ; ; (r, start_r, Var3, "multivector schema", r_index, Idx24, false); ; (rr, A0, B0, "archive schema", false));
impl View for A51 {
    fn part(&self, i: usize) -> Option<Val> { match i { 0 => Some(Val::Multi(view_vals(&self.r()))), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Option<&dyn View> { match i { 0 => Some(self.rr()), _ => unreachable!() } }
    fn copy(&self) -> Box<dyn View> { Box::new(self.clone()) }
}
impl Build for B51 {
    fn write(&self, i: usize, c: &Content, way: usize) -> Result<(), String> { match i { 0 => set_multi(c, &|| self.start_r()), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Result<Box<dyn Build>, flatdata::ResourceStorageError> { match i { 0 => Ok(Box::new(self.rr()?)), _ => unreachable!() } }
}
define_archive!(A52, B52, "archive A52 {\n r : M;\n@optional rr : A;\n}"; ; ; (r, start_r, Var3, "multivector schema", r_index, Idx24, false); ; (rr, A7, B7, "archive schema", true));
impl View for A52 {
    fn part(&self, i: usize) -> Option<Val> { match i { 0 => Some(Val::Multi(view_vals(&self.r()))), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Option<&dyn View> { match i { 0 => self.rr().as_ref().map(|x| x as &dyn View), _ => unreachable!() } }
    fn copy(&self) -> Box<dyn View> { Box::new(self.clone()) }
}
impl Build for B52 {
    fn write(&self, i: usize, c: &Content, way: usize) -> Result<(), String> { match i { 0 => set_multi(c, &|| self.start_r()), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Result<Box<dyn Build>, flatdata::ResourceStorageError> { match i { 0 => Ok(Box::new(self.rr()?)), _ => unreachable!() } }
}
define_archive!(A53, B53, "archive A53 {\n @optional r : M;\nrr : M;\n}"; ; ; (r, start_r, Var3, "multivector schema", r_index, Idx24, true), (rr, start_rr, Var3, "multivector schema", rr_index, Idx24, false); ; );
impl View for A53 {
    fn part(&self, i: usize) -> Option<Val> { match i { 0 => self.r().map(|x| Val::Multi(view_vals(&x))), 1 => Some(Val::Multi(view_vals(&self.rr()))), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Option<&dyn View> { match i {  _ => unreachable!() } }
    fn copy(&self) -> Box<dyn View> { Box::new(self.clone()) }
}
impl Build for B53 {
    fn write(&self, i: usize, c: &Content, way: usize) -> Result<(), String> { match i { 0 => set_multi(c, &|| self.start_r()), 1 => set_multi(c, &|| self.start_rr()), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Result<Box<dyn Build>, flatdata::ResourceStorageError> { match i {  _ => unreachable!() } }
}
define_archive!(A54, B54, "archive A54 {\n @optional r : M;\n@optional rr : M;\n}"; ; ; (r, start_r, Var3, "multivector schema", r_index, Idx24, true), (rr, start_rr, Var3, "multivector schema", rr_index, Idx24, true); ; );
impl View for A54 {
    fn part(&self, i: usize) -> Option<Val> { match i { 0 => self.r().map(|x| Val::Multi(view_vals(&x))), 1 => self.rr().map(|x| Val::Multi(view_vals(&x))), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Option<&dyn View> { match i {  _ => unreachable!() } }
    fn copy(&self) -> Box<dyn View> { Box::new(self.clone()) }
}
impl Build for B54 {
    fn write(&self, i: usize, c: &Content, way: usize) -> Result<(), String> { match i { 0 => set_multi(c, &|| self.start_r()), 1 => set_multi(c, &|| self.start_rr()), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Result<Box<dyn Build>, flatdata::ResourceStorageError> { match i {  _ => unreachable!() } }
}
define_archive!(A55, B55, "archive A55 {\n @optional r : M;\nrr : R;\n}"; ; ; (r, start_r, Var3, "multivector schema", r_index, Idx24, true); (rr, set_rr, "raw schema", false); );
impl View for A55 {
    fn part(&self, i: usize) -> Option<Val> { match i { 0 => self.r().map(|x| Val::Multi(view_vals(&x))), 1 => Some(Val::Raw(self.rr().to_vec())), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Option<&dyn View> { match i {  _ => unreachable!() } }
    fn copy(&self) -> Box<dyn View> { Box::new(self.clone()) }
}
impl Build for B55 {
    fn write(&self, i: usize, c: &Content, way: usize) -> Result<(), String> { match i { 0 => set_multi(c, &|| self.start_r()), 1 => set_raw(c, &|x| self.set_rr(x)), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Result<Box<dyn Build>, flatdata::ResourceStorageError> { match i {  _ => unreachable!() } }
}
define_archive!(A56, B56, "archive A56 {\n @optional r : M;\n@optional rr : R;\n}"; ; ; (r, start_r, Var3, "multivector schema", r_index, Idx24, true); (rr, set_rr, "raw schema", true); );
impl View for A56 {
    fn part(&self, i: usize) -> Option<Val> { match i { 0 => self.r().map(|x| Val::Multi(view_vals(&x))), 1 => self.rr().map(|x| Val::Raw(x.to_vec())), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Option<&dyn View> { match i {  _ => unreachable!() } }
    fn copy(&self) -> Box<dyn View> { Box::new(self.clone()) }
}
impl Build for B56 {
    fn write(&self, i: usize, c: &Content, way: usize) -> Result<(), String> { match i { 0 => set_multi(c, &|| self.start_r()), 1 => set_raw(c, &|x| self.set_rr(x)), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Result<Box<dyn Build>, flatdata::ResourceStorageError> { match i {  _ => unreachable!() } }
}
define_archive!(A57, B57, "archive A57 {\n @optional r : M;\nrr : A;\n}"; ; ; (r, start_r, Var3, "multivector schema", r_index, Idx24, true); ; (rr, A2, B2, "archive schema", false));
impl View for A57 {
    fn part(&self, i: usize) -> Option<Val> { match i { 0 => self.r().map(|x| Val::Multi(view_vals(&x))), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Option<&dyn View> { match i { 0 => Some(self.rr()), _ => unreachable!() } }
    fn copy(&self) -> Box<dyn View> { Box::new(self.clone()) }
}
impl Build for B57 {
    fn write(&self, i: usize, c: &Content, way: usize) -> Result<(), String> { match i { 0 => set_multi(c, &|| self.start_r()), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Result<Box<dyn Build>, flatdata::ResourceStorageError> { match i { 0 => Ok(Box::new(self.rr()?)), _ => unreachable!() } }
}
define_archive!(A58, B58, "archive A58 {\n @optional r : M;\n@optional rr : A;\n}"; ; ; (r, start_r, Var3, "multivector schema", r_index, Idx24, true); ; (rr, A9, B9, "archive schema", true));
impl View for A58 {
    fn part(&self, i: usize) -> Option<Val> { match i { 0 => self.r().map(|x| Val::Multi(view_vals(&x))), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Option<&dyn View> { match i { 0 => self.rr().as_ref().map(|x| x as &dyn View), _ => unreachable!() } }
    fn copy(&self) -> Box<dyn View> { Box::new(self.clone()) }
}
impl Build for B58 {
    fn write(&self, i: usize, c: &Content, way: usize) -> Result<(), String> { match i { 0 => set_multi(c, &|| self.start_r()), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Result<Box<dyn Build>, flatdata::ResourceStorageError> { match i { 0 => Ok(Box::new(self.rr()?)), _ => unreachable!() } }
}
define_archive!(A59, B59, "archive A59 {\n r : R;\nrr : R;\n}"; ; ; ; (r, set_r, "raw schema", false), (rr, set_rr, "raw schema", false); );
impl View for A59 {
    fn part(&self, i: usize) -> Option<Val> { match i { 0 => Some(Val::Raw(self.r().to_vec())), 1 => Some(Val::Raw(self.rr().to_vec())), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Option<&dyn View> { match i {  _ => unreachable!() } }
    fn copy(&self) -> Box<dyn View> { Box::new(self.clone()) }
}
impl Build for B59 {
    fn write(&self, i: usize, c: &Content, way: usize) -> Result<(), String> { match i { 0 => set_raw(c, &|x| self.set_r(x)), 1 => set_raw(c, &|x| self.set_rr(x)), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Result<Box<dyn Build>, flatdata::ResourceStorageError> { match i {  _ => unreachable!() } }
}
define_archive!(A60, B60, "archive A60 {\n r : R;\n@optional rr : R;\n}"; ; ; ; (r, set_r, "raw schema", false), (rr, set_rr, "raw schema", true); );
impl View for A60 {
    fn part(&self, i: usize) -> Option<Val> { match i { 0 => Some(Val::Raw(self.r().to_vec())), 1 => self.rr().map(|x| Val::Raw(x.to_vec())), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Option<&dyn View> { match i {  _ => unreachable!() } }
    fn copy(&self) -> Box<dyn View> { Box::new(self.clone()) }
}
impl Build for B60 {
    fn write(&self, i: usize, c: &Content, way: usize) -> Result<(), String> { match i { 0 => set_raw(c, &|x| self.set_r(x)), 1 => set_raw(c, &|x| self.set_rr(x)), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Result<Box<dyn Build>, flatdata::ResourceStorageError> { match i {  _ => unreachable!() } }
}
define_archive!(A61, B61, "archive A61 {\n r : R;\nrr : A;\n}"; ; ; ; (r, set_r, "raw schema", false); (rr, A2, B2, "archive schema", false));
impl View for A61 {
    fn part(&self, i: usize) -> Option<Val> { match i { 0 => Some(Val::Raw(self.r().to_vec())), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Option<&dyn View> { match i { 0 => Some(self.rr()), _ => unreachable!() } }
    fn copy(&self) -> Box<dyn View> { Box::new(self.clone()) }
}
impl Build for B61 {
    fn write(&self, i: usize, c: &Content, way: usize) -> Result<(), String> { match i { 0 => set_raw(c, &|x| self.set_r(x)), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Result<Box<dyn Build>, flatdata::ResourceStorageError> { match i { 0 => Ok(Box::new(self.rr()?)), _ => unreachable!() } }
}
define_archive!(A62, B62, "archive A62 {\n r : R;\n@optional rr : A;\n}"; ; ; ; (r, set_r, "raw schema", false); (rr, A9, B9, "archive schema", true));
impl View for A62 {
    fn part(&self, i: usize) -> Option<Val> { match i { 0 => Some(Val::Raw(self.r().to_vec())), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Option<&dyn View> { match i { 0 => self.rr().as_ref().map(|x| x as &dyn View), _ => unreachable!() } }
    fn copy(&self) -> Box<dyn View> { Box::new(self.clone()) }
}
impl Build for B62 {
    fn write(&self, i: usize, c: &Content, way: usize) -> Result<(), String> { match i { 0 => set_raw(c, &|x| self.set_r(x)), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Result<Box<dyn Build>, flatdata::ResourceStorageError> { match i { 0 => Ok(Box::new(self.rr()?)), _ => unreachable!() } }
}
define_archive!(A63, B63, "archive A63 {\n @optional r : R;\nrr : R;\n}"; ; ; ; (r, set_r, "raw schema", true), (rr, set_rr, "raw schema", false); );
impl View for A63 {
    fn part(&self, i: usize) -> Option<Val> { match i { 0 => self.r().map(|x| Val::Raw(x.to_vec())), 1 => Some(Val::Raw(self.rr().to_vec())), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Option<&dyn View> { match i {  _ => unreachable!() } }
    fn copy(&self) -> Box<dyn View> { Box::new(self.clone()) }
}
impl Build for B63 {
    fn write(&self, i: usize, c: &Content, way: usize) -> Result<(), String> { match i { 0 => set_raw(c, &|x| self.set_r(x)), 1 => set_raw(c, &|x| self.set_rr(x)), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Result<Box<dyn Build>, flatdata::ResourceStorageError> { match i {  _ => unreachable!() } }
}
define_archive!(A64, B64, "archive A64 {\n @optional r : R;\n@optional rr : R;\n}"; ; ; ; (r, set_r, "raw schema", true), (rr, set_rr, "raw schema", true); );
impl View for A64 {
    fn part(&self, i: usize) -> Option<Val> { match i { 0 => self.r().map(|x| Val::Raw(x.to_vec())), 1 => self.rr().map(|x| Val::Raw(x.to_vec())), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Option<&dyn View> { match i {  _ => unreachable!() } }
    fn copy(&self) -> Box<dyn View> { Box::new(self.clone()) }
}
impl Build for B64 {
    fn write(&self, i: usize, c: &Content, way: usize) -> Result<(), String> { match i { 0 => set_raw(c, &|x| self.set_r(x)), 1 => set_raw(c, &|x| self.set_rr(x)), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Result<Box<dyn Build>, flatdata::ResourceStorageError> { match i {  _ => unreachable!() } }
}
define_archive!(A65, B65, "archive A65 {\n @optional r : R;\nrr : A;\n}"; ; ; ; (r, set_r, "raw schema", true); (rr, A2, B2, "archive schema", false));
impl View for A65 {
    fn part(&self, i: usize) -> Option<Val> { match i { 0 => self.r().map(|x| Val::Raw(x.to_vec())), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Option<&dyn View> { match i { 0 => Some(self.rr()), _ => unreachable!() } }
    fn copy(&self) -> Box<dyn View> { Box::new(self.clone()) }
}
impl Build for B65 {
    fn write(&self, i: usize, c: &Content, way: usize) -> Result<(), String> { match i { 0 => set_raw(c, &|x| self.set_r(x)), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Result<Box<dyn Build>, flatdata::ResourceStorageError> { match i { 0 => Ok(Box::new(self.rr()?)), _ => unreachable!() } }
}
define_archive!(A66, B66, "archive A66 {\n @optional r : R;\n@optional rr : A;\n}"; ; ; ; (r, set_r, "raw schema", true); (rr, A9, B9, "archive schema", true));
impl View for A66 {
    fn part(&self, i: usize) -> Option<Val> { match i { 0 => self.r().map(|x| Val::Raw(x.to_vec())), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Option<&dyn View> { match i { 0 => self.rr().as_ref().map(|x| x as &dyn View), _ => unreachable!() } }
    fn copy(&self) -> Box<dyn View> { Box::new(self.clone()) }
}
impl Build for B66 {
    fn write(&self, i: usize, c: &Content, way: usize) -> Result<(), String> { match i { 0 => set_raw(c, &|x| self.set_r(x)), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Result<Box<dyn Build>, flatdata::ResourceStorageError> { match i { 0 => Ok(Box::new(self.rr()?)), _ => unreachable!() } }
}
define_archive!(A67, B67, "archive A67 {\n r : A;\nrr : A;\n}"; ; ; ; ; (r, A9, B9, "archive schema", false), (rr, A0, B0, "archive schema", false));
impl View for A67 {
    fn part(&self, i: usize) -> Option<Val> { match i {  _ => unreachable!() } }
    fn sub(&self, i: usize) -> Option<&dyn View> { match i { 0 => Some(self.r()), 1 => Some(self.rr()), _ => unreachable!() } }
    fn copy(&self) -> Box<dyn View> { Box::new(self.clone()) }
}
impl Build for B67 {
    fn write(&self, i: usize, c: &Content, way: usize) -> Result<(), String> { match i {  _ => unreachable!() } }
    fn sub(&self, i: usize) -> Result<Box<dyn Build>, flatdata::ResourceStorageError> { match i { 0 => Ok(Box::new(self.r()?)), 1 => Ok(Box::new(self.rr()?)), _ => unreachable!() } }
}
define_archive!(A68, B68, "archive A68 {\n r : A;\n@optional rr : A;\n}"; ; ; ; ; (r, A0, B0, "archive schema", false), (rr, A7, B7, "archive schema", true));
impl View for A68 {
    fn part(&self, i: usize) -> Option<Val> { match i {  _ => unreachable!() } }
    fn sub(&self, i: usize) -> Option<&dyn View> { match i { 0 => Some(self.r()), 1 => self.rr().as_ref().map(|x| x as &dyn View), _ => unreachable!() } }
    fn copy(&self) -> Box<dyn View> { Box::new(self.clone()) }
}
impl Build for B68 {
    fn write(&self, i: usize, c: &Content, way: usize) -> Result<(), String> { match i {  _ => unreachable!() } }
    fn sub(&self, i: usize) -> Result<Box<dyn Build>, flatdata::ResourceStorageError> { match i { 0 => Ok(Box::new(self.r()?)), 1 => Ok(Box::new(self.rr()?)), _ => unreachable!() } }
}
define_archive!(A69, B69, "archive A69 {\n @optional r : A;\nrr : A;\n}"; ; ; ; ; (r, A7, B7, "archive schema", true), (rr, A2, B2, "archive schema", false));
impl View for A69 {
    fn part(&self, i: usize) -> Option<Val> { match i {  _ => unreachable!() } }
    fn sub(&self, i: usize) -> Option<&dyn View> { match i { 0 => self.r().as_ref().map(|x| x as &dyn View), 1 => Some(self.rr()), _ => unreachable!() } }
    fn copy(&self) -> Box<dyn View> { Box::new(self.clone()) }
}
impl Build for B69 {
    fn write(&self, i: usize, c: &Content, way: usize) -> Result<(), String> { match i {  _ => unreachable!() } }
    fn sub(&self, i: usize) -> Result<Box<dyn Build>, flatdata::ResourceStorageError> { match i { 0 => Ok(Box::new(self.r()?)), 1 => Ok(Box::new(self.rr()?)), _ => unreachable!() } }
}
define_archive!(A70, B70, "archive A70 {\n @optional r : A;\n@optional rr : A;\n}"; ; ; ; ; (r, A2, B2, "archive schema", true), (rr, A9, B9, "archive schema", true));
impl View for A70 {
    fn part(&self, i: usize) -> Option<Val> { match i {  _ => unreachable!() } }
    fn sub(&self, i: usize) -> Option<&dyn View> { match i { 0 => self.r().as_ref().map(|x| x as &dyn View), 1 => self.rr().as_ref().map(|x| x as &dyn View), _ => unreachable!() } }
    fn copy(&self) -> Box<dyn View> { Box::new(self.clone()) }
}
impl Build for B70 {
    fn write(&self, i: usize, c: &Content, way: usize) -> Result<(), String> { match i {  _ => unreachable!() } }
    fn sub(&self, i: usize) -> Result<Box<dyn Build>, flatdata::ResourceStorageError> { match i { 0 => Ok(Box::new(self.r()?)), 1 => Ok(Box::new(self.rr()?)), _ => unreachable!() } }
}
define_archive!(A71, B71, "archive A71 {\n r : S;\nrr : S;\nr_r : S;\n}"; (r, set_r, Ea, "struct schema", false), (rr, set_rr, Ea, "struct schema", false), (r_r, set_r_r, Ea, "struct schema", false); ; ; ; );
impl View for A71 {
    fn part(&self, i: usize) -> Option<Val> { match i { 0 => Some(Val::Struct(Ea::get(&self.r()))), 1 => Some(Val::Struct(Ea::get(&self.rr()))), 2 => Some(Val::Struct(Ea::get(&self.r_r()))), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Option<&dyn View> { match i {  _ => unreachable!() } }
    fn copy(&self) -> Box<dyn View> { Box::new(self.clone()) }
}
impl Build for B71 {
    fn write(&self, i: usize, c: &Content, way: usize) -> Result<(), String> { match i { 0 => set_struct(c, &|x| self.set_r(x)), 1 => set_struct(c, &|x| self.set_rr(x)), 2 => set_struct(c, &|x| self.set_r_r(x)), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Result<Box<dyn Build>, flatdata::ResourceStorageError> { match i {  _ => unreachable!() } }
}
define_archive!(A72, B72, "archive A72 {\n @optional r : S;\n@optional rr : S;\n@optional r_r : S;\n}"; (r, set_r, Ea, "struct schema", true), (rr, set_rr, Ea, "struct schema", true), (r_r, set_r_r, Ea, "struct schema", true); ; ; ; );
impl View for A72 {
    fn part(&self, i: usize) -> Option<Val> { match i { 0 => self.r().map(|x| Val::Struct(Ea::get(&x))), 1 => self.rr().map(|x| Val::Struct(Ea::get(&x))), 2 => self.r_r().map(|x| Val::Struct(Ea::get(&x))), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Option<&dyn View> { match i {  _ => unreachable!() } }
    fn copy(&self) -> Box<dyn View> { Box::new(self.clone()) }
}
impl Build for B72 {
    fn write(&self, i: usize, c: &Content, way: usize) -> Result<(), String> { match i { 0 => set_struct(c, &|x| self.set_r(x)), 1 => set_struct(c, &|x| self.set_rr(x)), 2 => set_struct(c, &|x| self.set_r_r(x)), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Result<Box<dyn Build>, flatdata::ResourceStorageError> { match i {  _ => unreachable!() } }
}
define_archive!(A73, B73, "archive A73 {\n r : S;\n@optional rr : S;\nr_r : S;\n}"; (r, set_r, Ea, "struct schema", false), (rr, set_rr, Ea, "struct schema", true), (r_r, set_r_r, Ea, "struct schema", false); ; ; ; );
impl View for A73 {
    fn part(&self, i: usize) -> Option<Val> { match i { 0 => Some(Val::Struct(Ea::get(&self.r()))), 1 => self.rr().map(|x| Val::Struct(Ea::get(&x))), 2 => Some(Val::Struct(Ea::get(&self.r_r()))), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Option<&dyn View> { match i {  _ => unreachable!() } }
    fn copy(&self) -> Box<dyn View> { Box::new(self.clone()) }
}
impl Build for B73 {
    fn write(&self, i: usize, c: &Content, way: usize) -> Result<(), String> { match i { 0 => set_struct(c, &|x| self.set_r(x)), 1 => set_struct(c, &|x| self.set_rr(x)), 2 => set_struct(c, &|x| self.set_r_r(x)), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Result<Box<dyn Build>, flatdata::ResourceStorageError> { match i {  _ => unreachable!() } }
}
define_archive!(A74, B74, "archive A74 {\n @optional r : S;\nrr : S;\n@optional r_r : S;\n}"; (r, set_r, Ea, "struct schema", true), (rr, set_rr, Ea, "struct schema", false), (r_r, set_r_r, Ea, "struct schema", true); ; ; ; );
impl View for A74 {
    fn part(&self, i: usize) -> Option<Val> { match i { 0 => self.r().map(|x| Val::Struct(Ea::get(&x))), 1 => Some(Val::Struct(Ea::get(&self.rr()))), 2 => self.r_r().map(|x| Val::Struct(Ea::get(&x))), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Option<&dyn View> { match i {  _ => unreachable!() } }
    fn copy(&self) -> Box<dyn View> { Box::new(self.clone()) }
}
impl Build for B74 {
    fn write(&self, i: usize, c: &Content, way: usize) -> Result<(), String> { match i { 0 => set_struct(c, &|x| self.set_r(x)), 1 => set_struct(c, &|x| self.set_rr(x)), 2 => set_struct(c, &|x| self.set_r_r(x)), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Result<Box<dyn Build>, flatdata::ResourceStorageError> { match i {  _ => unreachable!() } }
}
define_archive!(A75, B75, "archive A75 {\n r : V;\nrr : V;\nr_r : V;\n}"; ; (r, set_r, start_r, E7, "vector schema", false), (rr, set_rr, start_rr, E7, "vector schema", false), (r_r, set_r_r, start_r_r, E7, "vector schema", false); ; ; );
impl View for A75 {
    fn part(&self, i: usize) -> Option<Val> { match i { 0 => Some(Val::Vector(array_vals(&self.r()))), 1 => Some(Val::Vector(array_vals(&self.rr()))), 2 => Some(Val::Vector(array_vals(&self.r_r()))), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Option<&dyn View> { match i {  _ => unreachable!() } }
    fn copy(&self) -> Box<dyn View> { Box::new(self.clone()) }
}
impl Build for B75 {
    fn write(&self, i: usize, c: &Content, way: usize) -> Result<(), String> { match i { 0 => set_vector(c, way, &|x| self.set_r(x), &|| self.start_r()), 1 => set_vector(c, way, &|x| self.set_rr(x), &|| self.start_rr()), 2 => set_vector(c, way, &|x| self.set_r_r(x), &|| self.start_r_r()), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Result<Box<dyn Build>, flatdata::ResourceStorageError> { match i {  _ => unreachable!() } }
}
define_archive!(A76, B76, "archive A76 {\n @optional r : V;\n@optional rr : V;\n@optional r_r : V;\n}"; ; (r, set_r, start_r, E7, "vector schema", true), (rr, set_rr, start_rr, E7, "vector schema", true), (r_r, set_r_r, start_r_r, E7, "vector schema", true); ; ; );
impl View for A76 {
    fn part(&self, i: usize) -> Option<Val> { match i { 0 => self.r().map(|x| Val::Vector(array_vals(&x))), 1 => self.rr().map(|x| Val::Vector(array_vals(&x))), 2 => self.r_r().map(|x| Val::Vector(array_vals(&x))), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Option<&dyn View> { match i {  _ => unreachable!() } }
    fn copy(&self) -> Box<dyn View> { Box::new(self.clone()) }
}
impl Build for B76 {
    fn write(&self, i: usize, c: &Content, way: usize) -> Result<(), String> { match i { 0 => set_vector(c, way, &|x| self.set_r(x), &|| self.start_r()), 1 => set_vector(c, way, &|x| self.set_rr(x), &|| self.start_rr()), 2 => set_vector(c, way, &|x| self.set_r_r(x), &|| self.start_r_r()), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Result<Box<dyn Build>, flatdata::ResourceStorageError> { match i {  _ => unreachable!() } }
}
define_archive!(A77, B77, "archive A77 {\n r : V;\n@optional rr : V;\nr_r : V;\n}"; ; (r, set_r, start_r, E7, "vector schema", false), (rr, set_rr, start_rr, E7, "vector schema", true), (r_r, set_r_r, start_r_r, E7, "vector schema", false); ; ; );
impl View for A77 {
    fn part(&self, i: usize) -> Option<Val> { match i { 0 => Some(Val::Vector(array_vals(&self.r()))), 1 => self.rr().map(|x| Val::Vector(array_vals(&x))), 2 => Some(Val::Vector(array_vals(&self.r_r()))), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Option<&dyn View> { match i {  _ => unreachable!() } }
    fn copy(&self) -> Box<dyn View> { Box::new(self.clone()) }
}
impl Build for B77 {
    fn write(&self, i: usize, c: &Content, way: usize) -> Result<(), String> { match i { 0 => set_vector(c, way, &|x| self.set_r(x), &|| self.start_r()), 1 => set_vector(c, way, &|x| self.set_rr(x), &|| self.start_rr()), 2 => set_vector(c, way, &|x| self.set_r_r(x), &|| self.start_r_r()), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Result<Box<dyn Build>, flatdata::ResourceStorageError> { match i {  _ => unreachable!() } }
}
define_archive!(A78, B78, "archive A78 {\n @optional r : V;\nrr : V;\n@optional r_r : V;\n}"; ; (r, set_r, start_r, E7, "vector schema", true), (rr, set_rr, start_rr, E7, "vector schema", false), (r_r, set_r_r, start_r_r, E7, "vector schema", true); ; ; );
impl View for A78 {
    fn part(&self, i: usize) -> Option<Val> { match i { 0 => self.r().map(|x| Val::Vector(array_vals(&x))), 1 => Some(Val::Vector(array_vals(&self.rr()))), 2 => self.r_r().map(|x| Val::Vector(array_vals(&x))), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Option<&dyn View> { match i {  _ => unreachable!() } }
    fn copy(&self) -> Box<dyn View> { Box::new(self.clone()) }
}
impl Build for B78 {
    fn write(&self, i: usize, c: &Content, way: usize) -> Result<(), String> { match i { 0 => set_vector(c, way, &|x| self.set_r(x), &|| self.start_r()), 1 => set_vector(c, way, &|x| self.set_rr(x), &|| self.start_rr()), 2 => set_vector(c, way, &|x| self.set_r_r(x), &|| self.start_r_r()), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Result<Box<dyn Build>, flatdata::ResourceStorageError> { match i {  _ => unreachable!() } }
}
define_archive!(A79, B79, "archive A79 {\n r : M;\nrr : M;\nr_r : M;\n}"; ; ; (r, start_r, Var3, "multivector schema", r_index, Idx24, false), (rr, start_rr, Var3, "multivector schema", rr_index, Idx24, false), (r_r, start_r_r, Var3, "multivector schema", r_r_index, Idx24, false); ; );
impl View for A79 {
    fn part(&self, i: usize) -> Option<Val> { match i { 0 => Some(Val::Multi(view_vals(&self.r()))), 1 => Some(Val::Multi(view_vals(&self.rr()))), 2 => Some(Val::Multi(view_vals(&self.r_r()))), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Option<&dyn View> { match i {  _ => unreachable!() } }
    fn copy(&self) -> Box<dyn View> { Box::new(self.clone()) }
}
impl Build for B79 {
    fn write(&self, i: usize, c: &Content, way: usize) -> Result<(), String> { match i { 0 => set_multi(c, &|| self.start_r()), 1 => set_multi(c, &|| self.start_rr()), 2 => set_multi(c, &|| self.start_r_r()), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Result<Box<dyn Build>, flatdata::ResourceStorageError> { match i {  _ => unreachable!() } }
}
define_archive!(A80, B80, "archive A80 {\n @optional r : M;\n@optional rr : M;\n@optional r_r : M;\n}"; ; ; (r, start_r, Var3, "multivector schema", r_index, Idx24, true), (rr, start_rr, Var3, "multivector schema", rr_index, Idx24, true), (r_r, start_r_r, Var3, "multivector schema", r_r_index, Idx24, true); ; );
impl View for A80 {
    fn part(&self, i: usize) -> Option<Val> { match i { 0 => self.r().map(|x| Val::Multi(view_vals(&x))), 1 => self.rr().map(|x| Val::Multi(view_vals(&x))), 2 => self.r_r().map(|x| Val::Multi(view_vals(&x))), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Option<&dyn View> { match i {  _ => unreachable!() } }
    fn copy(&self) -> Box<dyn View> { Box::new(self.clone()) }
}
impl Build for B80 {
    fn write(&self, i: usize, c: &Content, way: usize) -> Result<(), String> { match i { 0 => set_multi(c, &|| self.start_r()), 1 => set_multi(c, &|| self.start_rr()), 2 => set_multi(c, &|| self.start_r_r()), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Result<Box<dyn Build>, flatdata::ResourceStorageError> { match i {  _ => unreachable!() } }
}
define_archive!(A81, B81, "archive A81 {\n r : M;\n@optional rr : M;\nr_r : M;\n}"; ; ; (r, start_r, Var3, "multivector schema", r_index, Idx24, false), (rr, start_rr, Var3, "multivector schema", rr_index, Idx24, true), (r_r, start_r_r, Var3, "multivector schema", r_r_index, Idx24, false); ; );
impl View for A81 {
    fn part(&self, i: usize) -> Option<Val> { match i { 0 => Some(Val::Multi(view_vals(&self.r()))), 1 => self.rr().map(|x| Val::Multi(view_vals(&x))), 2 => Some(Val::Multi(view_vals(&self.r_r()))), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Option<&dyn View> { match i {  _ => unreachable!() } }
    fn copy(&self) -> Box<dyn View> { Box::new(self.clone()) }
}
impl Build for B81 {
    fn write(&self, i: usize, c: &Content, way: usize) -> Result<(), String> { match i { 0 => set_multi(c, &|| self.start_r()), 1 => set_multi(c, &|| self.start_rr()), 2 => set_multi(c, &|| self.start_r_r()), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Result<Box<dyn Build>, flatdata::ResourceStorageError> { match i {  _ => unreachable!() } }
}
define_archive!(A82, B82, "archive A82 {\n @optional r : M;\nrr : M;\n@optional r_r : M;\n}"; ; ; (r, start_r, Var3, "multivector schema", r_index, Idx24, true), (rr, start_rr, Var3, "multivector schema", rr_index, Idx24, false), (r_r, start_r_r, Var3, "multivector schema", r_r_index, Idx24, true); ; );
impl View for A82 {
    fn part(&self, i: usize) -> Option<Val> { match i { 0 => self.r().map(|x| Val::Multi(view_vals(&x))), 1 => Some(Val::Multi(view_vals(&self.rr()))), 2 => self.r_r().map(|x| Val::Multi(view_vals(&x))), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Option<&dyn View> { match i {  _ => unreachable!() } }
    fn copy(&self) -> Box<dyn View> { Box::new(self.clone()) }
}
impl Build for B82 {
    fn write(&self, i: usize, c: &Content, way: usize) -> Result<(), String> { match i { 0 => set_multi(c, &|| self.start_r()), 1 => set_multi(c, &|| self.start_rr()), 2 => set_multi(c, &|| self.start_r_r()), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Result<Box<dyn Build>, flatdata::ResourceStorageError> { match i {  _ => unreachable!() } }
}
define_archive!(A83, B83, "archive A83 {\n r : R;\nrr : R;\nr_r : R;\n}"; ; ; ; (r, set_r, "raw schema", false), (rr, set_rr, "raw schema", false), (r_r, set_r_r, "raw schema", false); );
impl View for A83 {
    fn part(&self, i: usize) -> Option<Val> { match i { 0 => Some(Val::Raw(self.r().to_vec())), 1 => Some(Val::Raw(self.rr().to_vec())), 2 => Some(Val::Raw(self.r_r().to_vec())), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Option<&dyn View> { match i {  _ => unreachable!() } }
    fn copy(&self) -> Box<dyn View> { Box::new(self.clone()) }
}
impl Build for B83 {
    fn write(&self, i: usize, c: &Content, way: usize) -> Result<(), String> { match i { 0 => set_raw(c, &|x| self.set_r(x)), 1 => set_raw(c, &|x| self.set_rr(x)), 2 => set_raw(c, &|x| self.set_r_r(x)), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Result<Box<dyn Build>, flatdata::ResourceStorageError> { match i {  _ => unreachable!() } }
}
define_archive!(A84, B84, "archive A84 {\n @optional r : R;\n@optional rr : R;\n@optional r_r : R;\n}"; ; ; ; (r, set_r, "raw schema", true), (rr, set_rr, "raw schema", true), (r_r, set_r_r, "raw schema", true); );
impl View for A84 {
    fn part(&self, i: usize) -> Option<Val> { match i { 0 => self.r().map(|x| Val::Raw(x.to_vec())), 1 => self.rr().map(|x| Val::Raw(x.to_vec())), 2 => self.r_r().map(|x| Val::Raw(x.to_vec())), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Option<&dyn View> { match i {  _ => unreachable!() } }
    fn copy(&self) -> Box<dyn View> { Box::new(self.clone()) }
}
impl Build for B84 {
    fn write(&self, i: usize, c: &Content, way: usize) -> Result<(), String> { match i { 0 => set_raw(c, &|x| self.set_r(x)), 1 => set_raw(c, &|x| self.set_rr(x)), 2 => set_raw(c, &|x| self.set_r_r(x)), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Result<Box<dyn Build>, flatdata::ResourceStorageError> { match i {  _ => unreachable!() } }
}
define_archive!(A85, B85, "archive A85 {\n r : R;\n@optional rr : R;\nr_r : R;\n}"; ; ; ; (r, set_r, "raw schema", false), (rr, set_rr, "raw schema", true), (r_r, set_r_r, "raw schema", false); );
impl View for A85 {
    fn part(&self, i: usize) -> Option<Val> { match i { 0 => Some(Val::Raw(self.r().to_vec())), 1 => self.rr().map(|x| Val::Raw(x.to_vec())), 2 => Some(Val::Raw(self.r_r().to_vec())), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Option<&dyn View> { match i {  _ => unreachable!() } }
    fn copy(&self) -> Box<dyn View> { Box::new(self.clone()) }
}
impl Build for B85 {
    fn write(&self, i: usize, c: &Content, way: usize) -> Result<(), String> { match i { 0 => set_raw(c, &|x| self.set_r(x)), 1 => set_raw(c, &|x| self.set_rr(x)), 2 => set_raw(c, &|x| self.set_r_r(x)), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Result<Box<dyn Build>, flatdata::ResourceStorageError> { match i {  _ => unreachable!() } }
}
define_archive!(A86, B86, "archive A86 {\n @optional r : R;\nrr : R;\n@optional r_r : R;\n}"; ; ; ; (r, set_r, "raw schema", true), (rr, set_rr, "raw schema", false), (r_r, set_r_r, "raw schema", true); );
impl View for A86 {
    fn part(&self, i: usize) -> Option<Val> { match i { 0 => self.r().map(|x| Val::Raw(x.to_vec())), 1 => Some(Val::Raw(self.rr().to_vec())), 2 => self.r_r().map(|x| Val::Raw(x.to_vec())), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Option<&dyn View> { match i {  _ => unreachable!() } }
    fn copy(&self) -> Box<dyn View> { Box::new(self.clone()) }
}
impl Build for B86 {
    fn write(&self, i: usize, c: &Content, way: usize) -> Result<(), String> { match i { 0 => set_raw(c, &|x| self.set_r(x)), 1 => set_raw(c, &|x| self.set_rr(x)), 2 => set_raw(c, &|x| self.set_r_r(x)), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Result<Box<dyn Build>, flatdata::ResourceStorageError> { match i {  _ => unreachable!() } }
}
define_archive!(A87, B87, "archive A87 {\n r : A;\nrr : A;\nr_r : A;\n}"; ; ; ; ; (r, A9, B9, "archive schema", false), (rr, A0, B0, "archive schema", false), (r_r, A7, B7, "archive schema", false));
impl View for A87 {
    fn part(&self, i: usize) -> Option<Val> { match i {  _ => unreachable!() } }
    fn sub(&self, i: usize) -> Option<&dyn View> { match i { 0 => Some(self.r()), 1 => Some(self.rr()), 2 => Some(self.r_r()), _ => unreachable!() } }
    fn copy(&self) -> Box<dyn View> { Box::new(self.clone()) }
}
impl Build for B87 {
    fn write(&self, i: usize, c: &Content, way: usize) -> Result<(), String> { match i {  _ => unreachable!() } }
    fn sub(&self, i: usize) -> Result<Box<dyn Build>, flatdata::ResourceStorageError> { match i { 0 => Ok(Box::new(self.r()?)), 1 => Ok(Box::new(self.rr()?)), 2 => Ok(Box::new(self.r_r()?)), _ => unreachable!() } }
}
define_archive!(A88, B88, "archive A88 {\n @optional r : A;\n@optional rr : A;\n@optional r_r : A;\n}"; ; ; ; ; (r, A0, B0, "archive schema", true), (rr, A7, B7, "archive schema", true), (r_r, A2, B2, "archive schema", true));
impl View for A88 {
    fn part(&self, i: usize) -> Option<Val> { match i {  _ => unreachable!() } }
    fn sub(&self, i: usize) -> Option<&dyn View> { match i { 0 => self.r().as_ref().map(|x| x as &dyn View), 1 => self.rr().as_ref().map(|x| x as &dyn View), 2 => self.r_r().as_ref().map(|x| x as &dyn View), _ => unreachable!() } }
    fn copy(&self) -> Box<dyn View> { Box::new(self.clone()) }
}
impl Build for B88 {
    fn write(&self, i: usize, c: &Content, way: usize) -> Result<(), String> { match i {  _ => unreachable!() } }
    fn sub(&self, i: usize) -> Result<Box<dyn Build>, flatdata::ResourceStorageError> { match i { 0 => Ok(Box::new(self.r()?)), 1 => Ok(Box::new(self.rr()?)), 2 => Ok(Box::new(self.r_r()?)), _ => unreachable!() } }
}
define_archive!(A89, B89, "archive A89 {\n r : A;\n@optional rr : A;\nr_r : A;\n}"; ; ; ; ; (r, A7, B7, "archive schema", false), (rr, A2, B2, "archive schema", true), (r_r, A9, B9, "archive schema", false));
impl View for A89 {
    fn part(&self, i: usize) -> Option<Val> { match i {  _ => unreachable!() } }
    fn sub(&self, i: usize) -> Option<&dyn View> { match i { 0 => Some(self.r()), 1 => self.rr().as_ref().map(|x| x as &dyn View), 2 => Some(self.r_r()), _ => unreachable!() } }
    fn copy(&self) -> Box<dyn View> { Box::new(self.clone()) }
}
impl Build for B89 {
    fn write(&self, i: usize, c: &Content, way: usize) -> Result<(), String> { match i {  _ => unreachable!() } }
    fn sub(&self, i: usize) -> Result<Box<dyn Build>, flatdata::ResourceStorageError> { match i { 0 => Ok(Box::new(self.r()?)), 1 => Ok(Box::new(self.rr()?)), 2 => Ok(Box::new(self.r_r()?)), _ => unreachable!() } }
}
define_archive!(A90, B90, "archive A90 {\n @optional r : A;\nrr : A;\n@optional r_r : A;\n}"; ; ; ; ; (r, A2, B2, "archive schema", true), (rr, A9, B9, "archive schema", false), (r_r, A0, B0, "archive schema", true));
impl View for A90 {
    fn part(&self, i: usize) -> Option<Val> { match i {  _ => unreachable!() } }
    fn sub(&self, i: usize) -> Option<&dyn View> { match i { 0 => self.r().as_ref().map(|x| x as &dyn View), 1 => Some(self.rr()), 2 => self.r_r().as_ref().map(|x| x as &dyn View), _ => unreachable!() } }
    fn copy(&self) -> Box<dyn View> { Box::new(self.clone()) }
}
impl Build for B90 {
    fn write(&self, i: usize, c: &Content, way: usize) -> Result<(), String> { match i {  _ => unreachable!() } }
    fn sub(&self, i: usize) -> Result<Box<dyn Build>, flatdata::ResourceStorageError> { match i { 0 => Ok(Box::new(self.r()?)), 1 => Ok(Box::new(self.rr()?)), 2 => Ok(Box::new(self.r_r()?)), _ => unreachable!() } }
}
define_archive!(A91, B91, "archive A91 {\n r : S;\nrr : V;\nr_r : M;\nR : R;\nr2 : A;\n}"; (r, set_r, Ea, "struct schema", false); (rr, set_rr, start_rr, E7, "vector schema", false); (r_r, start_r_r, Var3, "multivector schema", r_r_index, Idx24, false); (R, set_R, "raw schema", false); (r2, A9, B9, "archive schema", false));
impl View for A91 {
    fn part(&self, i: usize) -> Option<Val> { match i { 0 => Some(Val::Struct(Ea::get(&self.r()))), 1 => Some(Val::Vector(array_vals(&self.rr()))), 2 => Some(Val::Multi(view_vals(&self.r_r()))), 3 => Some(Val::Raw(self.R().to_vec())), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Option<&dyn View> { match i { 0 => Some(self.r2()), _ => unreachable!() } }
    fn copy(&self) -> Box<dyn View> { Box::new(self.clone()) }
}
impl Build for B91 {
    fn write(&self, i: usize, c: &Content, way: usize) -> Result<(), String> { match i { 0 => set_struct(c, &|x| self.set_r(x)), 1 => set_vector(c, way, &|x| self.set_rr(x), &|| self.start_rr()), 2 => set_multi(c, &|| self.start_r_r()), 3 => set_raw(c, &|x| self.set_R(x)), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Result<Box<dyn Build>, flatdata::ResourceStorageError> { match i { 0 => Ok(Box::new(self.r2()?)), _ => unreachable!() } }
}
define_archive!(A92, B92, "archive A92 {\n @optional r : S;\n@optional rr : V;\n@optional r_r : M;\n@optional R : R;\n@optional r2 : A;\n}"; (r, set_r, Ea, "struct schema", true); (rr, set_rr, start_rr, E7, "vector schema", true); (r_r, start_r_r, Var3, "multivector schema", r_r_index, Idx24, true); (R, set_R, "raw schema", true); (r2, A0, B0, "archive schema", true));
impl View for A92 {
    fn part(&self, i: usize) -> Option<Val> { match i { 0 => self.r().map(|x| Val::Struct(Ea::get(&x))), 1 => self.rr().map(|x| Val::Vector(array_vals(&x))), 2 => self.r_r().map(|x| Val::Multi(view_vals(&x))), 3 => self.R().map(|x| Val::Raw(x.to_vec())), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Option<&dyn View> { match i { 0 => self.r2().as_ref().map(|x| x as &dyn View), _ => unreachable!() } }
    fn copy(&self) -> Box<dyn View> { Box::new(self.clone()) }
}
impl Build for B92 {
    fn write(&self, i: usize, c: &Content, way: usize) -> Result<(), String> { match i { 0 => set_struct(c, &|x| self.set_r(x)), 1 => set_vector(c, way, &|x| self.set_rr(x), &|| self.start_rr()), 2 => set_multi(c, &|| self.start_r_r()), 3 => set_raw(c, &|x| self.set_R(x)), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Result<Box<dyn Build>, flatdata::ResourceStorageError> { match i { 0 => Ok(Box::new(self.r2()?)), _ => unreachable!() } }
}
define_archive!(A93, B93, "archive A93 {\n r : S;\n@optional rr : V;\nr_r : M;\n@optional R : R;\nr2 : A;\n}"; (r, set_r, Ea, "struct schema", false); (rr, set_rr, start_rr, E7, "vector schema", true); (r_r, start_r_r, Var3, "multivector schema", r_r_index, Idx24, false); (R, set_R, "raw schema", true); (r2, A7, B7, "archive schema", false));
impl View for A93 {
    fn part(&self, i: usize) -> Option<Val> { match i { 0 => Some(Val::Struct(Ea::get(&self.r()))), 1 => self.rr().map(|x| Val::Vector(array_vals(&x))), 2 => Some(Val::Multi(view_vals(&self.r_r()))), 3 => self.R().map(|x| Val::Raw(x.to_vec())), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Option<&dyn View> { match i { 0 => Some(self.r2()), _ => unreachable!() } }
    fn copy(&self) -> Box<dyn View> { Box::new(self.clone()) }
}
impl Build for B93 {
    fn write(&self, i: usize, c: &Content, way: usize) -> Result<(), String> { match i { 0 => set_struct(c, &|x| self.set_r(x)), 1 => set_vector(c, way, &|x| self.set_rr(x), &|| self.start_rr()), 2 => set_multi(c, &|| self.start_r_r()), 3 => set_raw(c, &|x| self.set_R(x)), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Result<Box<dyn Build>, flatdata::ResourceStorageError> { match i { 0 => Ok(Box::new(self.r2()?)), _ => unreachable!() } }
}
define_archive!(A94, B94, "archive A94 {\n @optional r : S;\nrr : V;\n@optional r_r : M;\nR : R;\n@optional r2 : A;\n}"; (r, set_r, Ea, "struct schema", true); (rr, set_rr, start_rr, E7, "vector schema", false); (r_r, start_r_r, Var3, "multivector schema", r_r_index, Idx24, true); (R, set_R, "raw schema", false); (r2, A2, B2, "archive schema", true));
impl View for A94 {
    fn part(&self, i: usize) -> Option<Val> { match i { 0 => self.r().map(|x| Val::Struct(Ea::get(&x))), 1 => Some(Val::Vector(array_vals(&self.rr()))), 2 => self.r_r().map(|x| Val::Multi(view_vals(&x))), 3 => Some(Val::Raw(self.R().to_vec())), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Option<&dyn View> { match i { 0 => self.r2().as_ref().map(|x| x as &dyn View), _ => unreachable!() } }
    fn copy(&self) -> Box<dyn View> { Box::new(self.clone()) }
}
impl Build for B94 {
    fn write(&self, i: usize, c: &Content, way: usize) -> Result<(), String> { match i { 0 => set_struct(c, &|x| self.set_r(x)), 1 => set_vector(c, way, &|x| self.set_rr(x), &|| self.start_rr()), 2 => set_multi(c, &|| self.start_r_r()), 3 => set_raw(c, &|x| self.set_R(x)), _ => unreachable!() } }
    fn sub(&self, i: usize) -> Result<Box<dyn Build>, flatdata::ResourceStorageError> { match i { 0 => Ok(Box::new(self.r2()?)), _ => unreachable!() } }
}
pub const SHAPES: &[Shape] = &[
    Shape { name: "A0", schema: "archive A0 {\n }", parts: &[], subs: &[], open: |s| Ok(Box::new(A0::open(s.clone())?)), create: |s| Ok(Box::new(B0::new(s.clone())?)) },
    Shape { name: "A1", schema: "archive A1 {\n r : S;\n}", parts: &[("r", Kind::Struct, false)], subs: &[], open: |s| Ok(Box::new(A1::open(s.clone())?)), create: |s| Ok(Box::new(B1::new(s.clone())?)) },
    Shape { name: "A2", schema: "archive A2 {\n @optional r : S;\n}", parts: &[("r", Kind::Struct, true)], subs: &[], open: |s| Ok(Box::new(A2::open(s.clone())?)), create: |s| Ok(Box::new(B2::new(s.clone())?)) },
    Shape { name: "A3", schema: "archive A3 {\n r : V;\n}", parts: &[("r", Kind::Vector, false)], subs: &[], open: |s| Ok(Box::new(A3::open(s.clone())?)), create: |s| Ok(Box::new(B3::new(s.clone())?)) },
    Shape { name: "A4", schema: "archive A4 {\n @optional r : V;\n}", parts: &[("r", Kind::Vector, true)], subs: &[], open: |s| Ok(Box::new(A4::open(s.clone())?)), create: |s| Ok(Box::new(B4::new(s.clone())?)) },
    Shape { name: "A5", schema: "archive A5 {\n r : M;\n}", parts: &[("r", Kind::Multi, false)], subs: &[], open: |s| Ok(Box::new(A5::open(s.clone())?)), create: |s| Ok(Box::new(B5::new(s.clone())?)) },
    Shape { name: "A6", schema: "archive A6 {\n @optional r : M;\n}", parts: &[("r", Kind::Multi, true)], subs: &[], open: |s| Ok(Box::new(A6::open(s.clone())?)), create: |s| Ok(Box::new(B6::new(s.clone())?)) },
    Shape { name: "A7", schema: "archive A7 {\n r : R;\n}", parts: &[("r", Kind::Raw, false)], subs: &[], open: |s| Ok(Box::new(A7::open(s.clone())?)), create: |s| Ok(Box::new(B7::new(s.clone())?)) },
    Shape { name: "A8", schema: "archive A8 {\n @optional r : R;\n}", parts: &[("r", Kind::Raw, true)], subs: &[], open: |s| Ok(Box::new(A8::open(s.clone())?)), create: |s| Ok(Box::new(B8::new(s.clone())?)) },
    Shape { name: "A9", schema: "archive A9 {\n r : A;\n}", parts: &[], subs: &[("r", false, 0)], open: |s| Ok(Box::new(A9::open(s.clone())?)), create: |s| Ok(Box::new(B9::new(s.clone())?)) },
    Shape { name: "A10", schema: "archive A10 {\n @optional r : A;\n}", parts: &[], subs: &[("r", true, 7)], open: |s| Ok(Box::new(A10::open(s.clone())?)), create: |s| Ok(Box::new(B10::new(s.clone())?)) },
    Shape { name: "A11", schema: "archive A11 {\n r : S;\nrr : S;\n}", parts: &[("r", Kind::Struct, false), ("rr", Kind::Struct, false)], subs: &[], open: |s| Ok(Box::new(A11::open(s.clone())?)), create: |s| Ok(Box::new(B11::new(s.clone())?)) },
    Shape { name: "A12", schema: "archive A12 {\n r : S;\n@optional rr : S;\n}", parts: &[("r", Kind::Struct, false), ("rr", Kind::Struct, true)], subs: &[], open: |s| Ok(Box::new(A12::open(s.clone())?)), create: |s| Ok(Box::new(B12::new(s.clone())?)) },
    Shape { name: "A13", schema: "archive A13 {\n r : S;\nrr : V;\n}", parts: &[("r", Kind::Struct, false), ("rr", Kind::Vector, false)], subs: &[], open: |s| Ok(Box::new(A13::open(s.clone())?)), create: |s| Ok(Box::new(B13::new(s.clone())?)) },
    Shape { name: "A14", schema: "archive A14 {\n r : S;\n@optional rr : V;\n}", parts: &[("r", Kind::Struct, false), ("rr", Kind::Vector, true)], subs: &[], open: |s| Ok(Box::new(A14::open(s.clone())?)), create: |s| Ok(Box::new(B14::new(s.clone())?)) },
    Shape { name: "A15", schema: "archive A15 {\n r : S;\nrr : M;\n}", parts: &[("r", Kind::Struct, false), ("rr", Kind::Multi, false)], subs: &[], open: |s| Ok(Box::new(A15::open(s.clone())?)), create: |s| Ok(Box::new(B15::new(s.clone())?)) },
    Shape { name: "A16", schema: "archive A16 {\n r : S;\n@optional rr : M;\n}", parts: &[("r", Kind::Struct, false), ("rr", Kind::Multi, true)], subs: &[], open: |s| Ok(Box::new(A16::open(s.clone())?)), create: |s| Ok(Box::new(B16::new(s.clone())?)) },
    Shape { name: "A17", schema: "archive A17 {\n r : S;\nrr : R;\n}", parts: &[("r", Kind::Struct, false), ("rr", Kind::Raw, false)], subs: &[], open: |s| Ok(Box::new(A17::open(s.clone())?)), create: |s| Ok(Box::new(B17::new(s.clone())?)) },
    Shape { name: "A18", schema: "archive A18 {\n r : S;\n@optional rr : R;\n}", parts: &[("r", Kind::Struct, false), ("rr", Kind::Raw, true)], subs: &[], open: |s| Ok(Box::new(A18::open(s.clone())?)), create: |s| Ok(Box::new(B18::new(s.clone())?)) },
    Shape { name: "A19", schema: "archive A19 {\n r : S;\nrr : A;\n}", parts: &[("r", Kind::Struct, false)], subs: &[("rr", false, 0)], open: |s| Ok(Box::new(A19::open(s.clone())?)), create: |s| Ok(Box::new(B19::new(s.clone())?)) },
    Shape { name: "A20", schema: "archive A20 {\n r : S;\n@optional rr : A;\n}", parts: &[("r", Kind::Struct, false)], subs: &[("rr", true, 7)], open: |s| Ok(Box::new(A20::open(s.clone())?)), create: |s| Ok(Box::new(B20::new(s.clone())?)) },
    Shape { name: "A21", schema: "archive A21 {\n @optional r : S;\nrr : S;\n}", parts: &[("r", Kind::Struct, true), ("rr", Kind::Struct, false)], subs: &[], open: |s| Ok(Box::new(A21::open(s.clone())?)), create: |s| Ok(Box::new(B21::new(s.clone())?)) },
    Shape { name: "A22", schema: "archive A22 {\n @optional r : S;\n@optional rr : S;\n}", parts: &[("r", Kind::Struct, true), ("rr", Kind::Struct, true)], subs: &[], open: |s| Ok(Box::new(A22::open(s.clone())?)), create: |s| Ok(Box::new(B22::new(s.clone())?)) },
    Shape { name: "A23", schema: "archive A23 {\n @optional r : S;\nrr : V;\n}", parts: &[("r", Kind::Struct, true), ("rr", Kind::Vector, false)], subs: &[], open: |s| Ok(Box::new(A23::open(s.clone())?)), create: |s| Ok(Box::new(B23::new(s.clone())?)) },
    Shape { name: "A24", schema: "archive A24 {\n @optional r : S;\n@optional rr : V;\n}", parts: &[("r", Kind::Struct, true), ("rr", Kind::Vector, true)], subs: &[], open: |s| Ok(Box::new(A24::open(s.clone())?)), create: |s| Ok(Box::new(B24::new(s.clone())?)) },
    Shape { name: "A25", schema: "archive A25 {\n @optional r : S;\nrr : M;\n}", parts: &[("r", Kind::Struct, true), ("rr", Kind::Multi, false)], subs: &[], open: |s| Ok(Box::new(A25::open(s.clone())?)), create: |s| Ok(Box::new(B25::new(s.clone())?)) },
    Shape { name: "A26", schema: "archive A26 {\n @optional r : S;\n@optional rr : M;\n}", parts: &[("r", Kind::Struct, true), ("rr", Kind::Multi, true)], subs: &[], open: |s| Ok(Box::new(A26::open(s.clone())?)), create: |s| Ok(Box::new(B26::new(s.clone())?)) },
    Shape { name: "A27", schema: "archive A27 {\n @optional r : S;\nrr : R;\n}", parts: &[("r", Kind::Struct, true), ("rr", Kind::Raw, false)], subs: &[], open: |s| Ok(Box::new(A27::open(s.clone())?)), create: |s| Ok(Box::new(B27::new(s.clone())?)) },
    Shape { name: "A28", schema: "archive A28 {\n @optional r : S;\n@optional rr : R;\n}", parts: &[("r", Kind::Struct, true), ("rr", Kind::Raw, true)], subs: &[], open: |s| Ok(Box::new(A28::open(s.clone())?)), create: |s| Ok(Box::new(B28::new(s.clone())?)) },
    Shape { name: "A29", schema: "archive A29 {\n @optional r : S;\nrr : A;\n}", parts: &[("r", Kind::Struct, true)], subs: &[("rr", false, 2)], open: |s| Ok(Box::new(A29::open(s.clone())?)), create: |s| Ok(Box::new(B29::new(s.clone())?)) },
    Shape { name: "A30", schema: "archive A30 {\n @optional r : S;\n@optional rr : A;\n}", parts: &[("r", Kind::Struct, true)], subs: &[("rr", true, 9)], open: |s| Ok(Box::new(A30::open(s.clone())?)), create: |s| Ok(Box::new(B30::new(s.clone())?)) },
    Shape { name: "A31", schema: "archive A31 {\n r : V;\nrr : V;\n}", parts: &[("r", Kind::Vector, false), ("rr", Kind::Vector, false)], subs: &[], open: |s| Ok(Box::new(A31::open(s.clone())?)), create: |s| Ok(Box::new(B31::new(s.clone())?)) },
    Shape { name: "A32", schema: "archive A32 {\n r : V;\n@optional rr : V;\n}", parts: &[("r", Kind::Vector, false), ("rr", Kind::Vector, true)], subs: &[], open: |s| Ok(Box::new(A32::open(s.clone())?)), create: |s| Ok(Box::new(B32::new(s.clone())?)) },
    Shape { name: "A33", schema: "archive A33 {\n r : V;\nrr : M;\n}", parts: &[("r", Kind::Vector, false), ("rr", Kind::Multi, false)], subs: &[], open: |s| Ok(Box::new(A33::open(s.clone())?)), create: |s| Ok(Box::new(B33::new(s.clone())?)) },
    Shape { name: "A34", schema: "archive A34 {\n r : V;\n@optional rr : M;\n}", parts: &[("r", Kind::Vector, false), ("rr", Kind::Multi, true)], subs: &[], open: |s| Ok(Box::new(A34::open(s.clone())?)), create: |s| Ok(Box::new(B34::new(s.clone())?)) },
    Shape { name: "A35", schema: "archive A35 {\n r : V;\nrr : R;\n}", parts: &[("r", Kind::Vector, false), ("rr", Kind::Raw, false)], subs: &[], open: |s| Ok(Box::new(A35::open(s.clone())?)), create: |s| Ok(Box::new(B35::new(s.clone())?)) },
    Shape { name: "A36", schema: "archive A36 {\n r : V;\n@optional rr : R;\n}", parts: &[("r", Kind::Vector, false), ("rr", Kind::Raw, true)], subs: &[], open: |s| Ok(Box::new(A36::open(s.clone())?)), create: |s| Ok(Box::new(B36::new(s.clone())?)) },
    Shape { name: "A37", schema: "archive A37 {\n r : V;\nrr : A;\n}", parts: &[("r", Kind::Vector, false)], subs: &[("rr", false, 2)], open: |s| Ok(Box::new(A37::open(s.clone())?)), create: |s| Ok(Box::new(B37::new(s.clone())?)) },
    Shape { name: "A38", schema: "archive A38 {\n r : V;\n@optional rr : A;\n}", parts: &[("r", Kind::Vector, false)], subs: &[("rr", true, 9)], open: |s| Ok(Box::new(A38::open(s.clone())?)), create: |s| Ok(Box::new(B38::new(s.clone())?)) },
    Shape { name: "A39", schema: "archive A39 {\n @optional r : V;\nrr : V;\n}", parts: &[("r", Kind::Vector, true), ("rr", Kind::Vector, false)], subs: &[], open: |s| Ok(Box::new(A39::open(s.clone())?)), create: |s| Ok(Box::new(B39::new(s.clone())?)) },
    Shape { name: "A40", schema: "archive A40 {\n @optional r : V;\n@optional rr : V;\n}", parts: &[("r", Kind::Vector, true), ("rr", Kind::Vector, true)], subs: &[], open: |s| Ok(Box::new(A40::open(s.clone())?)), create: |s| Ok(Box::new(B40::new(s.clone())?)) },
    Shape { name: "A41", schema: "archive A41 {\n @optional r : V;\nrr : M;\n}", parts: &[("r", Kind::Vector, true), ("rr", Kind::Multi, false)], subs: &[], open: |s| Ok(Box::new(A41::open(s.clone())?)), create: |s| Ok(Box::new(B41::new(s.clone())?)) },
    Shape { name: "A42", schema: "archive A42 {\n @optional r : V;\n@optional rr : M;\n}", parts: &[("r", Kind::Vector, true), ("rr", Kind::Multi, true)], subs: &[], open: |s| Ok(Box::new(A42::open(s.clone())?)), create: |s| Ok(Box::new(B42::new(s.clone())?)) },
    Shape { name: "A43", schema: "archive A43 {\n @optional r : V;\nrr : R;\n}", parts: &[("r", Kind::Vector, true), ("rr", Kind::Raw, false)], subs: &[], open: |s| Ok(Box::new(A43::open(s.clone())?)), create: |s| Ok(Box::new(B43::new(s.clone())?)) },
    Shape { name: "A44", schema: "archive A44 {\n @optional r : V;\n@optional rr : R;\n}", parts: &[("r", Kind::Vector, true), ("rr", Kind::Raw, true)], subs: &[], open: |s| Ok(Box::new(A44::open(s.clone())?)), create: |s| Ok(Box::new(B44::new(s.clone())?)) },
    Shape { name: "A45", schema: "archive A45 {\n @optional r : V;\nrr : A;\n}", parts: &[("r", Kind::Vector, true)], subs: &[("rr", false, 2)], open: |s| Ok(Box::new(A45::open(s.clone())?)), create: |s| Ok(Box::new(B45::new(s.clone())?)) },
    Shape { name: "A46", schema: "archive A46 {\n @optional r : V;\n@optional rr : A;\n}", parts: &[("r", Kind::Vector, true)], subs: &[("rr", true, 9)], open: |s| Ok(Box::new(A46::open(s.clone())?)), create: |s| Ok(Box::new(B46::new(s.clone())?)) },
    Shape { name: "A47", schema: "archive A47 {\n r : M;\nrr : M;\n}", parts: &[("r", Kind::Multi, false), ("rr", Kind::Multi, false)], subs: &[], open: |s| Ok(Box::new(A47::open(s.clone())?)), create: |s| Ok(Box::new(B47::new(s.clone())?)) },
    Shape { name: "A48", schema: "archive A48 {\n r : M;\n@optional rr : M;\n}", parts: &[("r", Kind::Multi, false), ("rr", Kind::Multi, true)], subs: &[], open: |s| Ok(Box::new(A48::open(s.clone())?)), create: |s| Ok(Box::new(B48::new(s.clone())?)) },
    Shape { name: "A49", schema: "archive A49 {\n r : M;\nrr : R;\n}", parts: &[("r", Kind::Multi, false), ("rr", Kind::Raw, false)], subs: &[], open: |s| Ok(Box::new(A49::open(s.clone())?)), create: |s| Ok(Box::new(B49::new(s.clone())?)) },
    Shape { name: "A50", schema: "archive A50 {\n r : M;\n@optional rr : R;\n}", parts: &[("r", Kind::Multi, false), ("rr", Kind::Raw, true)], subs: &[], open: |s| Ok(Box::new(A50::open(s.clone())?)), create: |s| Ok(Box::new(B50::new(s.clone())?)) },
    Shape { name: "A51", schema: "archive A51 {\n r : M;\nrr : A;\n}", parts: &[("r", Kind::Multi, false)], subs: &[("rr", false, 0)], open: |s| Ok(Box::new(A51::open(s.clone())?)), create: |s| Ok(Box::new(B51::new(s.clone())?)) },
    Shape { name: "A52", schema: "archive A52 {\n r : M;\n@optional rr : A;\n}", parts: &[("r", Kind::Multi, false)], subs: &[("rr", true, 7)], open: |s| Ok(Box::new(A52::open(s.clone())?)), create: |s| Ok(Box::new(B52::new(s.clone())?)) },
    Shape { name: "A53", schema: "archive A53 {\n @optional r : M;\nrr : M;\n}", parts: &[("r", Kind::Multi, true), ("rr", Kind::Multi, false)], subs: &[], open: |s| Ok(Box::new(A53::open(s.clone())?)), create: |s| Ok(Box::new(B53::new(s.clone())?)) },
    Shape { name: "A54", schema: "archive A54 {\n @optional r : M;\n@optional rr : M;\n}", parts: &[("r", Kind::Multi, true), ("rr", Kind::Multi, true)], subs: &[], open: |s| Ok(Box::new(A54::open(s.clone())?)), create: |s| Ok(Box::new(B54::new(s.clone())?)) },
    Shape { name: "A55", schema: "archive A55 {\n @optional r : M;\nrr : R;\n}", parts: &[("r", Kind::Multi, true), ("rr", Kind::Raw, false)], subs: &[], open: |s| Ok(Box::new(A55::open(s.clone())?)), create: |s| Ok(Box::new(B55::new(s.clone())?)) },
    Shape { name: "A56", schema: "archive A56 {\n @optional r : M;\n@optional rr : R;\n}", parts: &[("r", Kind::Multi, true), ("rr", Kind::Raw, true)], subs: &[], open: |s| Ok(Box::new(A56::open(s.clone())?)), create: |s| Ok(Box::new(B56::new(s.clone())?)) },
    Shape { name: "A57", schema: "archive A57 {\n @optional r : M;\nrr : A;\n}", parts: &[("r", Kind::Multi, true)], subs: &[("rr", false, 2)], open: |s| Ok(Box::new(A57::open(s.clone())?)), create: |s| Ok(Box::new(B57::new(s.clone())?)) },
    Shape { name: "A58", schema: "archive A58 {\n @optional r : M;\n@optional rr : A;\n}", parts: &[("r", Kind::Multi, true)], subs: &[("rr", true, 9)], open: |s| Ok(Box::new(A58::open(s.clone())?)), create: |s| Ok(Box::new(B58::new(s.clone())?)) },
    Shape { name: "A59", schema: "archive A59 {\n r : R;\nrr : R;\n}", parts: &[("r", Kind::Raw, false), ("rr", Kind::Raw, false)], subs: &[], open: |s| Ok(Box::new(A59::open(s.clone())?)), create: |s| Ok(Box::new(B59::new(s.clone())?)) },
    Shape { name: "A60", schema: "archive A60 {\n r : R;\n@optional rr : R;\n}", parts: &[("r", Kind::Raw, false), ("rr", Kind::Raw, true)], subs: &[], open: |s| Ok(Box::new(A60::open(s.clone())?)), create: |s| Ok(Box::new(B60::new(s.clone())?)) },
    Shape { name: "A61", schema: "archive A61 {\n r : R;\nrr : A;\n}", parts: &[("r", Kind::Raw, false)], subs: &[("rr", false, 2)], open: |s| Ok(Box::new(A61::open(s.clone())?)), create: |s| Ok(Box::new(B61::new(s.clone())?)) },
    Shape { name: "A62", schema: "archive A62 {\n r : R;\n@optional rr : A;\n}", parts: &[("r", Kind::Raw, false)], subs: &[("rr", true, 9)], open: |s| Ok(Box::new(A62::open(s.clone())?)), create: |s| Ok(Box::new(B62::new(s.clone())?)) },
    Shape { name: "A63", schema: "archive A63 {\n @optional r : R;\nrr : R;\n}", parts: &[("r", Kind::Raw, true), ("rr", Kind::Raw, false)], subs: &[], open: |s| Ok(Box::new(A63::open(s.clone())?)), create: |s| Ok(Box::new(B63::new(s.clone())?)) },
    Shape { name: "A64", schema: "archive A64 {\n @optional r : R;\n@optional rr : R;\n}", parts: &[("r", Kind::Raw, true), ("rr", Kind::Raw, true)], subs: &[], open: |s| Ok(Box::new(A64::open(s.clone())?)), create: |s| Ok(Box::new(B64::new(s.clone())?)) },
    Shape { name: "A65", schema: "archive A65 {\n @optional r : R;\nrr : A;\n}", parts: &[("r", Kind::Raw, true)], subs: &[("rr", false, 2)], open: |s| Ok(Box::new(A65::open(s.clone())?)), create: |s| Ok(Box::new(B65::new(s.clone())?)) },
    Shape { name: "A66", schema: "archive A66 {\n @optional r : R;\n@optional rr : A;\n}", parts: &[("r", Kind::Raw, true)], subs: &[("rr", true, 9)], open: |s| Ok(Box::new(A66::open(s.clone())?)), create: |s| Ok(Box::new(B66::new(s.clone())?)) },
    Shape { name: "A67", schema: "archive A67 {\n r : A;\nrr : A;\n}", parts: &[], subs: &[("r", false, 9), ("rr", false, 0)], open: |s| Ok(Box::new(A67::open(s.clone())?)), create: |s| Ok(Box::new(B67::new(s.clone())?)) },
    Shape { name: "A68", schema: "archive A68 {\n r : A;\n@optional rr : A;\n}", parts: &[], subs: &[("r", false, 0), ("rr", true, 7)], open: |s| Ok(Box::new(A68::open(s.clone())?)), create: |s| Ok(Box::new(B68::new(s.clone())?)) },
    Shape { name: "A69", schema: "archive A69 {\n @optional r : A;\nrr : A;\n}", parts: &[], subs: &[("r", true, 7), ("rr", false, 2)], open: |s| Ok(Box::new(A69::open(s.clone())?)), create: |s| Ok(Box::new(B69::new(s.clone())?)) },
    Shape { name: "A70", schema: "archive A70 {\n @optional r : A;\n@optional rr : A;\n}", parts: &[], subs: &[("r", true, 2), ("rr", true, 9)], open: |s| Ok(Box::new(A70::open(s.clone())?)), create: |s| Ok(Box::new(B70::new(s.clone())?)) },
    Shape { name: "A71", schema: "archive A71 {\n r : S;\nrr : S;\nr_r : S;\n}", parts: &[("r", Kind::Struct, false), ("rr", Kind::Struct, false), ("r_r", Kind::Struct, false)], subs: &[], open: |s| Ok(Box::new(A71::open(s.clone())?)), create: |s| Ok(Box::new(B71::new(s.clone())?)) },
    Shape { name: "A72", schema: "archive A72 {\n @optional r : S;\n@optional rr : S;\n@optional r_r : S;\n}", parts: &[("r", Kind::Struct, true), ("rr", Kind::Struct, true), ("r_r", Kind::Struct, true)], subs: &[], open: |s| Ok(Box::new(A72::open(s.clone())?)), create: |s| Ok(Box::new(B72::new(s.clone())?)) },
    Shape { name: "A73", schema: "archive A73 {\n r : S;\n@optional rr : S;\nr_r : S;\n}", parts: &[("r", Kind::Struct, false), ("rr", Kind::Struct, true), ("r_r", Kind::Struct, false)], subs: &[], open: |s| Ok(Box::new(A73::open(s.clone())?)), create: |s| Ok(Box::new(B73::new(s.clone())?)) },
    Shape { name: "A74", schema: "archive A74 {\n @optional r : S;\nrr : S;\n@optional r_r : S;\n}", parts: &[("r", Kind::Struct, true), ("rr", Kind::Struct, false), ("r_r", Kind::Struct, true)], subs: &[], open: |s| Ok(Box::new(A74::open(s.clone())?)), create: |s| Ok(Box::new(B74::new(s.clone())?)) },
    Shape { name: "A75", schema: "archive A75 {\n r : V;\nrr : V;\nr_r : V;\n}", parts: &[("r", Kind::Vector, false), ("rr", Kind::Vector, false), ("r_r", Kind::Vector, false)], subs: &[], open: |s| Ok(Box::new(A75::open(s.clone())?)), create: |s| Ok(Box::new(B75::new(s.clone())?)) },
    Shape { name: "A76", schema: "archive A76 {\n @optional r : V;\n@optional rr : V;\n@optional r_r : V;\n}", parts: &[("r", Kind::Vector, true), ("rr", Kind::Vector, true), ("r_r", Kind::Vector, true)], subs: &[], open: |s| Ok(Box::new(A76::open(s.clone())?)), create: |s| Ok(Box::new(B76::new(s.clone())?)) },
    Shape { name: "A77", schema: "archive A77 {\n r : V;\n@optional rr : V;\nr_r : V;\n}", parts: &[("r", Kind::Vector, false), ("rr", Kind::Vector, true), ("r_r", Kind::Vector, false)], subs: &[], open: |s| Ok(Box::new(A77::open(s.clone())?)), create: |s| Ok(Box::new(B77::new(s.clone())?)) },
    Shape { name: "A78", schema: "archive A78 {\n @optional r : V;\nrr : V;\n@optional r_r : V;\n}", parts: &[("r", Kind::Vector, true), ("rr", Kind::Vector, false), ("r_r", Kind::Vector, true)], subs: &[], open: |s| Ok(Box::new(A78::open(s.clone())?)), create: |s| Ok(Box::new(B78::new(s.clone())?)) },
    Shape { name: "A79", schema: "archive A79 {\n r : M;\nrr : M;\nr_r : M;\n}", parts: &[("r", Kind::Multi, false), ("rr", Kind::Multi, false), ("r_r", Kind::Multi, false)], subs: &[], open: |s| Ok(Box::new(A79::open(s.clone())?)), create: |s| Ok(Box::new(B79::new(s.clone())?)) },
    Shape { name: "A80", schema: "archive A80 {\n @optional r : M;\n@optional rr : M;\n@optional r_r : M;\n}", parts: &[("r", Kind::Multi, true), ("rr", Kind::Multi, true), ("r_r", Kind::Multi, true)], subs: &[], open: |s| Ok(Box::new(A80::open(s.clone())?)), create: |s| Ok(Box::new(B80::new(s.clone())?)) },
    Shape { name: "A81", schema: "archive A81 {\n r : M;\n@optional rr : M;\nr_r : M;\n}", parts: &[("r", Kind::Multi, false), ("rr", Kind::Multi, true), ("r_r", Kind::Multi, false)], subs: &[], open: |s| Ok(Box::new(A81::open(s.clone())?)), create: |s| Ok(Box::new(B81::new(s.clone())?)) },
    Shape { name: "A82", schema: "archive A82 {\n @optional r : M;\nrr : M;\n@optional r_r : M;\n}", parts: &[("r", Kind::Multi, true), ("rr", Kind::Multi, false), ("r_r", Kind::Multi, true)], subs: &[], open: |s| Ok(Box::new(A82::open(s.clone())?)), create: |s| Ok(Box::new(B82::new(s.clone())?)) },
    Shape { name: "A83", schema: "archive A83 {\n r : R;\nrr : R;\nr_r : R;\n}", parts: &[("r", Kind::Raw, false), ("rr", Kind::Raw, false), ("r_r", Kind::Raw, false)], subs: &[], open: |s| Ok(Box::new(A83::open(s.clone())?)), create: |s| Ok(Box::new(B83::new(s.clone())?)) },
    Shape { name: "A84", schema: "archive A84 {\n @optional r : R;\n@optional rr : R;\n@optional r_r : R;\n}", parts: &[("r", Kind::Raw, true), ("rr", Kind::Raw, true), ("r_r", Kind::Raw, true)], subs: &[], open: |s| Ok(Box::new(A84::open(s.clone())?)), create: |s| Ok(Box::new(B84::new(s.clone())?)) },
    Shape { name: "A85", schema: "archive A85 {\n r : R;\n@optional rr : R;\nr_r : R;\n}", parts: &[("r", Kind::Raw, false), ("rr", Kind::Raw, true), ("r_r", Kind::Raw, false)], subs: &[], open: |s| Ok(Box::new(A85::open(s.clone())?)), create: |s| Ok(Box::new(B85::new(s.clone())?)) },
    Shape { name: "A86", schema: "archive A86 {\n @optional r : R;\nrr : R;\n@optional r_r : R;\n}", parts: &[("r", Kind::Raw, true), ("rr", Kind::Raw, false), ("r_r", Kind::Raw, true)], subs: &[], open: |s| Ok(Box::new(A86::open(s.clone())?)), create: |s| Ok(Box::new(B86::new(s.clone())?)) },
    Shape { name: "A87", schema: "archive A87 {\n r : A;\nrr : A;\nr_r : A;\n}", parts: &[], subs: &[("r", false, 9), ("rr", false, 0), ("r_r", false, 7)], open: |s| Ok(Box::new(A87::open(s.clone())?)), create: |s| Ok(Box::new(B87::new(s.clone())?)) },
    Shape { name: "A88", schema: "archive A88 {\n @optional r : A;\n@optional rr : A;\n@optional r_r : A;\n}", parts: &[], subs: &[("r", true, 0), ("rr", true, 7), ("r_r", true, 2)], open: |s| Ok(Box::new(A88::open(s.clone())?)), create: |s| Ok(Box::new(B88::new(s.clone())?)) },
    Shape { name: "A89", schema: "archive A89 {\n r : A;\n@optional rr : A;\nr_r : A;\n}", parts: &[], subs: &[("r", false, 7), ("rr", true, 2), ("r_r", false, 9)], open: |s| Ok(Box::new(A89::open(s.clone())?)), create: |s| Ok(Box::new(B89::new(s.clone())?)) },
    Shape { name: "A90", schema: "archive A90 {\n @optional r : A;\nrr : A;\n@optional r_r : A;\n}", parts: &[], subs: &[("r", true, 2), ("rr", false, 9), ("r_r", true, 0)], open: |s| Ok(Box::new(A90::open(s.clone())?)), create: |s| Ok(Box::new(B90::new(s.clone())?)) },
    Shape { name: "A91", schema: "archive A91 {\n r : S;\nrr : V;\nr_r : M;\nR : R;\nr2 : A;\n}", parts: &[("r", Kind::Struct, false), ("rr", Kind::Vector, false), ("r_r", Kind::Multi, false), ("R", Kind::Raw, false)], subs: &[("r2", false, 9)], open: |s| Ok(Box::new(A91::open(s.clone())?)), create: |s| Ok(Box::new(B91::new(s.clone())?)) },
    Shape { name: "A92", schema: "archive A92 {\n @optional r : S;\n@optional rr : V;\n@optional r_r : M;\n@optional R : R;\n@optional r2 : A;\n}", parts: &[("r", Kind::Struct, true), ("rr", Kind::Vector, true), ("r_r", Kind::Multi, true), ("R", Kind::Raw, true)], subs: &[("r2", true, 0)], open: |s| Ok(Box::new(A92::open(s.clone())?)), create: |s| Ok(Box::new(B92::new(s.clone())?)) },
    Shape { name: "A93", schema: "archive A93 {\n r : S;\n@optional rr : V;\nr_r : M;\n@optional R : R;\nr2 : A;\n}", parts: &[("r", Kind::Struct, false), ("rr", Kind::Vector, true), ("r_r", Kind::Multi, false), ("R", Kind::Raw, true)], subs: &[("r2", false, 7)], open: |s| Ok(Box::new(A93::open(s.clone())?)), create: |s| Ok(Box::new(B93::new(s.clone())?)) },
    Shape { name: "A94", schema: "archive A94 {\n @optional r : S;\nrr : V;\n@optional r_r : M;\nR : R;\n@optional r2 : A;\n}", parts: &[("r", Kind::Struct, true), ("rr", Kind::Vector, false), ("r_r", Kind::Multi, true), ("R", Kind::Raw, false)], subs: &[("r2", true, 2)], open: |s| Ok(Box::new(A94::open(s.clone())?)), create: |s| Ok(Box::new(B94::new(s.clone())?)) },
];
