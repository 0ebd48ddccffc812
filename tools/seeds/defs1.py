def seed(id, property, edits, demo, needs, breaks, chunks={}):
    defs[id] = dict(property=property, edits=edits, demo=demo, needs=needs, breaks=breaks, chunks=chunks)

HDR51 = "b\"\\x1bLua\\x51\\0\\x01\\x04\\x08\\x04\\x08\\0\""

seed('s01-capacity', 'C01', [('function/mod.rs', '''        let line_info_count = byte_stream.integer()?;
        let mut line_info = Vec::new();''', '''        let line_info_count = byte_stream.integer()?;
        // One entry for every instruction, so this is not growing in steps.
        let mut line_info = Vec::with_capacity(line_info_count as usize);''')],
 '''    let b = read("c.luac");
    for i in 12..b.len() - 3 {
        let mut c = b.clone();
        c[i..i + 4].copy_from_slice(&i32::MIN.to_le_bytes());
        let f = Format { size_t_width: BitWidth::Bit32, ..native() };
        let r = std::panic::catch_unwind(move || unify(&c, &f, &Settings::default()));
        assert!(r.is_ok(), "panicked at {i}");
    }
''', 'a chunk whose line count is negative or huge', 'unify panics (capacity overflow) or aborts instead of reporting an error', {'c.luac': (51, 50, 'print("x")')})

seed('s02-boolean', 'C03', [('function/mod.rs', 'constants.push(Constant::Boolean(boolean != 0));', 'constants.push(Constant::Boolean(boolean == 1));')],
 '''    let b = read("c.luac");
    let f = Format { size_t_width: BitWidth::Bit32, ..native() };
    let a = unify(&b, &f, &Settings::default()).unwrap();
    let at = b.windows(4).position(|w| w == b"y\\0\x01\x01").unwrap();
    let mut c = b.clone();
    c[at + 3] = 255;
    let c = unify(&c, &f, &Settings::default()).unwrap();
    assert_eq!(a, c, "a true constant became false");
''', 'a boolean constant stored as any byte other than 0 and 1, which Lua loads as true', 'true becomes false', {'c.luac': (51, 50, 'local x = y == true')})

seed('s03-long-string', 'C04', [('serialization/stream.rs', 'let length = self.size_t()? as usize;', 'let length = self.size_t()? as u16 as usize;')],
 '''    let s: String = "x".repeat(70_000);
    let b = read("c.luac");
    let at = b.windows(9).position(|w| w == b"marker..\\0").unwrap();
    let mut c = b[..at - 8].to_vec();
    c.extend(70_001u64.to_le_bytes());
    c.extend(s.as_bytes());
    c.push(0);
    c.extend(&b[at + 9..]);
    let f = Format { size_t_width: BitWidth::Bit32, ..native() };
    let o = unify(&c, &f, &Settings::default()).expect("a long string is rejected");
    assert!(o.windows(s.len()).any(|w| w == s.as_bytes()));
''', 'a string of 65536 bytes or more', 'long strings are cut and the rest of the chunk is misread', {'c.luac': (51, 50, 'print("marker..")')})

seed('s04-fraction', 'C05', [('number.rs', 'Number::Float(value) => match value == value.round() {', 'Number::Float(value) => match (value - value.round()).abs() < f64::EPSILON {')],
 '''    let mut b = read("c.luac");
    let at = b.windows(8).position(|w| w == 7.25f64.to_le_bytes()).unwrap();
    b[at..at + 8].copy_from_slice(&1e-17f64.to_le_bytes());
    let f = Format { is_number_integral: true, ..native() };
    let r = unify(&b, &f, &Settings::default());
    assert_eq!(r, Err(LunifyError::FloatPrecisionLoss));
''', 'a fraction smaller than the machine epsilon, converted to an integral number format', 'the constant silently becomes zero', {'c.luac': (51, 50, 'x = 7.25')})

seed('s05-constant-bit', 'C06', [('function/instruction/operand/mode.rs', 'true => self.0 | settings.output.get_constant_bit(),', 'true => self.0 | (layout.bit_mask ^ (layout.bit_mask >> 1)),')],
 '''    let b = read("c.luac");
    let f = Format { size_t_width: BitWidth::Bit32, instruction_width: BitWidth::Bit64, ..native() };
    let mut s = Settings::default();
    s.output.layout = InstructionLayout::from_specification([Opcode(6), A(8), C(12), B(9)]).unwrap();
    let o = unify(&b, &f, &s).unwrap();
    // and back again
    let mut r = Settings::default();
    r.lua51 = s.output;
    let z = unify(&o, &Format { size_t_width: BitWidth::Bit64, ..native() }, &r).unwrap();
    assert_eq!(z, b, "operands changed");
''', 'an output layout whose B and C operands differ in size and a constant in C', 'constants in the wider operand become registers', {'c.luac': (51, 50, 'local t = {} t.a = 1 t.b = t.a + 2 print(t.b)')})

seed('s06-adjacent', 'C07', [('function/instruction/operand/layout.rs', '''        if c.position + c.size != b.position && b.position + b.size != c.position {''', '''        if c.position.abs_diff(b.position) > b.size.max(c.size) {''')],
 '''    let r = InstructionLayout::from_specification([C(8), A(7), B(24), Opcode(6)]);
    assert_eq!(r, Err(LunifyError::InvalidInstructionLayout));
    assert!(InstructionLayout::from_specification([A(7), C(8), B(24), Opcode(6)]).is_ok());
''', 'B and C separated by an operand, with the upper one much bigger than the lower one', 'an unusable layout is accepted')

seed('s07-empty-then', 'C08', [('function/upcast.rs', '            lua50::Instruction::Jump { a, mode } => {', '''            // A jump to the following instruction doesn't do anything.
            lua50::Instruction::Jump { mode: SignedBx(0), .. } => {}
            lua50::Instruction::Jump { a, mode } => {''')],
 '''    let o = unify(&read("c.luac"), &native(), &Settings::default());
    assert_eq!(o.map(|o| lua(&o)), Ok("one\\ntwo\\n".into()));
''', 'Lua 5.0 code with an empty then branch', 'the comparison in front of the removed jump skips another instruction', {'c.luac': (50, 32, 'local x = tonumber("3") print("one") if x == 4 then end print("two")')})

seed('s09-type', 'C10', [('function/constant.rs', '''        // If the constant already exists we don't need to add it again.
        let matches = |constant: &_| matches!(constant, Constant::String(string) if string == zero_terminated.as_str());''', '''        // If the constant already exists we don't need to add it again.
        let matches = |constant: &_| matches!(constant, Constant::String(string) if string.trim_start() == zero_terminated.as_str());''')],
 '''    let o = unify(&read("c.luac"), &native(), &Settings::default()).unwrap();
    assert_eq!(lua(&o), " next\\n1\\t5\\n2\\t6\\n");
''', 'a generic for loop in a function with a string constant that is next (or type, table) after white space', 'the loop uses the wrong global and fails', {'c.luac': (50, 32, 'print(" next") for k, v in {5, 6} do print(k, v) end')})

seed('s10-equals', 'C13', [('function/instruction/lua51.rs', '    Equals(BC<ConstantRegister, ConstantRegister>, false),', '    Equals(BC<ConstantRegister, ConstantRegister>, true),')],
 '''    let o = unify(&read("c.luac"), &native(), &flush(2, 5)).unwrap();
    assert_eq!(lua(&o), "10\\t20\\ttrue\\t40\\n");
''', 'a table constructor in register 0 that is converted to a larger flush size and contains a comparison', 'comparisons are inverted', {'c.luac': (51, 2, 'local t = {10, 20, 3 == tonumber("3"), 40} print(t[1], t[2], t[3], t[4])')})

seed('s11-lines', 'C16', [('function/builder.rs', 'self.line_info.remove(index);', 'self.line_info.pop();')],
 '''    // (instruction, line) of the only function
    fn lines(b: &mut Vec<u8>, set: bool) -> Vec<(u32, u32)> {
        let n = |b: &[u8], i: usize| u32::from_le_bytes(b[i..i + 4].try_into().unwrap());
        let code = 12 + 8 + n(b, 12) as usize + 12;
        let k = n(b, code) as usize;
        let mut i = code + 4 + 4 * k;
        let consts = n(b, i);
        i += 4;
        for _ in 0..consts {
            i += match b[i] { 0 => 1, 1 => 2, 3 => 9, _ => 9 + n(b, i + 1) as usize };
        }
        assert_eq!(n(b, i), 0);
        i += 8;
        if set {
            for j in 0..k {
                b[i + 4 * j..i + 4 * j + 4].copy_from_slice(&(j as u32 + 1).to_le_bytes());
            }
        }
        (0..k).map(|j| (n(b, code + 4 + 4 * j), n(b, i + 4 * j))).collect()
    }
    let mut b = read("c.luac");
    let call = |l: &[(u32, u32)]| l.iter().filter(|x| x.0 & 63 == 28).map(|x| x.1).collect::<Vec<_>>();
    let want = call(&lines(&mut b, true));
    let mut o = unify(&b, &native(), &flush(2, 5)).unwrap();
    assert_eq!(call(&lines(&mut o, false)), want);
''', 'a table constructor converted to a larger flush size that spans several lines', 'errors in the constructor are reported in the wrong line', {'c.luac': (51, 2, 'g = {10, 20, f(30), f(40), f(50)}')})

seed('s12-self', 'C17', [('function/instruction/lua51.rs', 'Instruction::_Self { a, .. } => Some(a..a + 1),', 'Instruction::_Self { a, .. } => Some(a..a),')],
 '''    let o = unify(&read("c.luac"), &native(), &flush(2, 6)).unwrap();
    // maximum stack size of the only function
    let at = 12 + 8 + u64::from_le_bytes(o[12..20].try_into().unwrap()) as usize + 8 + 3;
    // table, five values, and the receiver of the method
    assert!(o[at] >= 8, "stack size {}", o[at]);
''', 'a method call as the last value before the end of a constructor that is converted to a larger flush size', 'the declared stack size is too small for the receiver', {'c.luac': (51, 2, 'local o = {} ; g = {1, 2, 3, 4, o:m()}')})

seed('s13-no-upvalues', 'C18', [('function/mod.rs', '        let upvalue_count = byte_stream.integer()?;', '''        // Some compilers leave out the list if there are no names.
        let upvalue_count = match byte_stream.is_empty() {
            true => 0,
            false => byte_stream.integer()?,
        };''')],
 '''    let b = read("c.luac");
    let f = Format { size_t_width: BitWidth::Bit32, ..native() };
    assert!(unify(&b, &f, &Settings::default()).is_ok());
    let r = unify(&b[..b.len() - 4], &f, &Settings::default());
    assert_eq!(r, Err(LunifyError::InputTooShort));
''', 'a Lua 5.1 chunk that is cut exactly before its last field', 'a truncated chunk is accepted', {'c.luac': (51, 50, 'print("x")')})

seed('s14-once', 'C21', [('function/instruction/lua51.rs', '        self.get_constant_bit() - 1', '''        use std::sync::OnceLock;

        static MAXIMUM: OnceLock<u64> = OnceLock::new();
        *MAXIMUM.get_or_init(|| self.get_constant_bit() - 1)''')],
 '''    let b = read("c.luac");
    let f = Format { size_t_width: BitWidth::Bit32, instruction_width: BitWidth::Bit64, ..native() };
    let mut s = Settings::default();
    s.output.layout = InstructionLayout::from_specification([Opcode(6), A(8), C(8), B(8)]).unwrap();
    let first = unify(&b, &f, &Settings::default());
    let second = unify(&b, &f, &s);
    assert!(first.is_ok());
    assert_eq!(second, Err(LunifyError::ValueTooBigForOperand), "the result depends on the previous call");
''', 'two conversions with different output layouts in the same process', 'the limit of constants is that of the first conversion', {'c.luac': (51, 50, 'local t = {} ' + ' '.join('t.a%d = 1' % i for i in range(140)))})

seed('s15-unique', 'C22', [('function/constant.rs', 'if !self.constants.contains(&constant) {', 'if index > 0 || !self.constants.contains(&constant) {')],
 '''    let o = unify(&read("c.luac"), &native(), &Settings::default()).unwrap();
    let n = |s: String| o.windows(s.len()).filter(|w| *w == s.as_bytes()).count();
    let a = (0..99).map(|pc| n(format!("__%lunify%__temp{pc}_1\\0"))).max().unwrap();
    assert!(a <= 1, "two constants with the same name");
''', 'a program that already uses the first two helper names for the position of its loop', 'the helper global overwrites a global of the program', {'c.luac': (50, 32, 'for i = 1, 2 do print(i) end ' + ' '.join('_G["__%%lunify%%__temp%d_%d"] = 1' % (p, k) for k in (0, 1) for p in range(1, 12)))})

seed('s16-format50', 'C23', [('format/mod.rs', '''                settings.lua50.layout.b.size as u8,
                settings.lua50.layout.c.size as u8,''', '''                settings.lua50.layout.c.size as u8,
                settings.lua50.layout.b.size as u8,''')],
 '''    let mut b = read("c.luac");
    let mut s = Settings::default();
    s.lua50.layout = InstructionLayout::from_specification([Opcode(6), C(8), B(10), A(8)]).unwrap();
    assert_eq!(&b[9..13], &[6, 8, 9, 9]);
    // what Lua 5.0 writes: opcode, A, B, C
    b[9..13].copy_from_slice(&[6, 8, 8, 10]);
    assert_eq!(unify(&b, &native(), &s), Err(LunifyError::UnsupportedInstructionFormat([6, 8, 8, 10])));
''', 'a Lua 5.0 layout whose B and C operands differ in size', 'byte code with a different layout is accepted and byte code with the right one rejected', {'c.luac': (50, 32, 'print("x")')})

seed('s17-limit50', 'C24', [('function/instruction/operand/mode.rs', 'let is_constant = value >= settings.lua50.stack_limit;', 'let is_constant = value >= settings.output.stack_limit;'), ('function/instruction/operand/mode.rs', 'value -= settings.lua50.stack_limit;', 'value -= settings.output.stack_limit;')],
 '''    let b = read("c.luac");
    let mut s = Settings::default();
    let a = unify(&b, &native(), &s).unwrap();
    s.output.stack_limit = 200;
    let b = unify(&b, &native(), &s).unwrap();
    assert_eq!(a, b, "constants depend on the stack limit of the output");
''', 'Lua 5.0 input with a stack limit that differs from the one of the output', 'constants become registers or other constants', {'c.luac': (50, 32, 'x = y.z')})

seed('s18-length', 'C13', [('function/instruction/lua51.rs', 'Instruction::Length { a, .. } => Some(a..a),', 'Instruction::Length { .. } => None,')],
 '''    let o = unify(&read("c.luac"), &native(), &flush(60, 50)).unwrap();
    assert_eq!(lua(&o), "49\\t3\\t7\\n");
''', 'a length operator as the last value that fits a smaller flush size', 'the operand is stored instead of its length', {'c.luac': (51, 60, 'local s = "abc" local t = {%s, #(s .. ""), 7} print(t[49], t[50], t[51])' % ', '.join(str(i) for i in range(1, 50)))})
