def seed(id, property, edits, demo, needs, breaks, chunks={}):
    defs[id] = dict(property=property, edits=edits, demo=demo, needs=needs, breaks=breaks, chunks=chunks)

seed('t01-flag', 'C11', [('function/mod.rs', '''                parameter_count,
                is_variadic != 0,''', '''                parameter_count,
                is_variadic == 3,'''), ('function/mod.rs', '            if is_variadic != 0 {', '            if is_variadic == 1 {')],
 '''    let mut b = read("c.luac");
    // the nested function: upvalue count, parameter count, variadic flag
    let at = b.windows(4).rposition(|w| w == [0, 0, 1, 3]).unwrap();
    b[at + 2] = 2;
    let o = unify(&b, &native(), &Settings::default()).unwrap();
    assert_eq!(lua(&o), "3\\n");
''', 'a variadic function whose flag is a value other than 1, which Lua 5.0 treats the same', 'the function has no table of extra arguments', {'c.luac': (50, 32, 'function f(...) print(arg[3]) end f(1, 2, 3)')})

seed('t02-padding', 'C18', [('serialization/stream.rs', '        self.offset >= self.data.len()', '''        // Text tools like to append a newline.
        self.data.iter().skip(self.offset).all(|byte| matches!(byte, b'\\n' | b'\\r'))''')],
 '''    let f = Format { size_t_width: BitWidth::Bit32, ..native() };
    for n in 1..20 {
        let mut b = read("c.luac");
        b.resize(b.len() + n, b'\\n');
        assert_eq!(unify(&b, &f, &Settings::default()), Err(LunifyError::InputTooLong));
    }
''', 'extra bytes at the end that are all newlines', 'a padded chunk is accepted', {'c.luac': (51, 50, 'print("x")')})

seed('t03-source', 'C04', [('function/mod.rs', '''        for function in self.functions {
            function.write(byte_writer)?;''', '''        for mut function in self.functions {
            // Nested functions usually come from the same file, so don't repeat its name.
            if function.source_file == self.source_file {
                function.source_file.clear();
            }

            function.write(byte_writer)?;''')],
 '''    let b = read("c.luac");
    let f = Format { size_t_width: BitWidth::Bit32, ..native() };
    // give the nested function the name of the outer one
    let n = u64::from_le_bytes(b[12..20].try_into().unwrap()) as usize;
    let name = b[12..20 + n].to_vec();
    let at = b.windows(12).position(|w| w == [1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]).unwrap() + 4;
    let c = [&b[..at], &name[..], &b[at + 8..]].concat();
    let o = unify(&c, &f, &Settings::default()).unwrap();
    let count = |b: &[u8]| b.windows(n).filter(|w| *w == &name[8..]).count();
    assert_eq!(count(&o), count(&c));
''', 'a nested function that names its source even though it is the same as that of the outer function', 'the name is lost', {'c.luac': (51, 50, 'function f() end')})

seed('t05-limit', 'C24', [('function/instruction/operand/mode.rs', 'value -= settings.lua50.stack_limit;', 'value -= settings.lua51.stack_limit;')],
 '''    let b = read("c.luac");
    let mut s = Settings::default();
    let a = unify(&b, &native(), &s).unwrap();
    s.lua51.stack_limit = 240;
    assert_eq!(unify(&b, &native(), &s), Ok(a));
''', 'Lua 5.0 input with different stack limits for Lua 5.0 and Lua 5.1 input', 'constants become other constants', {'c.luac': (50, 32, 'x = y.z')})

seed('t06-nil', 'C10', [('function/constant.rs', 'let matches = |constant: &_| matches!(constant, Constant::Nil);', 'let matches = |constant: &_| matches!(constant, Constant::Nil | Constant::Boolean(false));')],
 '''    let mut b = read("c.luac");
    // make the first constant false instead of nil
    let at = b.windows(8).position(|w| w == b"marker\\0\\0").unwrap() + 7;
    b[at] = 1;
    b.insert(at + 1, 0);
    let o = unify(&b, &native(), &Settings::default()).unwrap();
    assert_eq!(lua(&o), "marker\\t1\\nmarker\\t2\\n");
''', 'a generic for loop with several variables in a function with a constant false', 'the end of the loop is not detected', {'c.luac': (50, 32, 'local m = "marker" local n = (m == nil) for k, v in next, {5, 6} do print(m, k) end')})

seed('t07-levels', 'C21', [('function/mod.rs', '''        let function_count = byte_stream.integer()?;
''', '''        thread_local! {
            static LEVELS: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
        }

        let function_count = byte_stream.integer()? as usize;
        let levels = LEVELS.with(|levels| levels.replace(levels.get() + 1));

        if levels > 2 * MAXIMUM_FUNCTION_DEPTH {
            return Err(LunifyError::FunctionsNestedTooDeep);
        }
'''), ('function/mod.rs', '''            functions.push(function);
        }
''', '''            functions.push(function);
        }

        LEVELS.with(|levels| levels.set(levels.get() - 1));
'''), ('function/mod.rs', 'for _index in 0..function_count as usize {', 'for _index in 0..function_count {')],
 '''    let b = read("c.luac");
    let f = Format { size_t_width: BitWidth::Bit32, ..native() };
    let first = unify(&b, &f, &Settings::default());
    assert!(first.is_ok());
    // fails inside of the nested function
    let at = b.windows(2).rposition(|w| w == b"y\\0").unwrap();
    for _ in 0..500 {
        assert!(unify(&b[..at], &f, &Settings::default()).is_err());
    }
    assert_eq!(unify(&b, &f, &Settings::default()), first);
''', 'several hundred conversions on the same thread that fail in a nested function', 'every further conversion fails', {'c.luac': (51, 50, 'function f() print("y") end')})

seed('t08-integral', 'C05', [('serialization/stream.rs', '''            true => Ok(Number::Integer(from_slice!(
                self,
                self.format.number_width,''', '''            true => Ok(Number::Integer(from_slice!(
                self,
                self.format.integer_width,''')],
 '''    let b = read("c.luac");
    let i = Format { is_number_integral: true, number_width: BitWidth::Bit32, ..native() };
    let c = unify(&b, &i, &Settings::default()).unwrap();
    let w = Format { integer_width: BitWidth::Bit64, ..i };
    let d = unify(&c, &w, &Settings::default()).unwrap();
    assert_eq!(unify(&d, &i, &Settings::default()), Ok(c));
''', 'integral numbers whose width differs from that of the integers', 'numbers are misread', {'c.luac': (51, 50, 'x = 77')})

seed('t09-move', 'C14', [('function/upcast.rs', '            lua50::Instruction::Move { a, mode } => builder.instruction(lua51::Instruction::Move { a, mode }),', '''            lua50::Instruction::Move { a, mode } => builder.instruction(match a == mode.0 .0 {
                // Moving a value to where it already is does nothing.
                true => lua51::Instruction::Jump { a, mode: SignedBx(0) },
                false => lua51::Instruction::Move { a, mode },
            }),''')],
 '''    let o = unify(&read("c.luac"), &native(), &Settings::default()).unwrap();
    assert_eq!(lua(&o), "5\\n");
''', 'a closure that captures the first local variable of a function', 'the variable is captured by an instruction that Lua does not understand there', {'c.luac': (50, 32, 'local x = 5 local function f() return x end print(f())')})

seed('t10-backwards', 'C16', [('function/builder.rs', '        self.line_number = line_number;', '        self.line_number = self.line_number.max(line_number);')],
 '''    // lines of the only function
    fn lines(b: &[u8]) -> Vec<u32> {
        let n = |b: &[u8], i: usize| u32::from_le_bytes(b[i..i + 4].try_into().unwrap());
        let code = 12 + 8 + n(b, 12) as usize + 12;
        let k = n(b, code) as usize;
        let mut i = code + 4 + 4 * k;
        let consts = n(b, i);
        i += 4;
        for _ in 0..consts {
            i += match b[i] { 0 => 1, 1 => 2, 3 => 9, _ => 9 + n(b, i + 1) as usize };
        }
        i += 8;
        (0..k).map(|j| n(b, i + 4 * j)).collect()
    }
    let o = unify(&read("c.luac"), &native(), &Settings::default()).unwrap();
    let l = lines(&o);
    assert!(l.windows(2).any(|w| w[0] > w[1]), "{l:?}");
''', 'instructions whose lines do not increase', 'errors are reported in the wrong line', {'c.luac': (50, 32, 'for i = 1, 2 do\n print(i)\n end\n for i = 1, 2 do\n print(i)\n end')})

seed('t11-terminator', 'C22', [('function/constant.rs', 'matches!(constant, Constant::String(string) if string == zero_terminated.as_str())', 'matches!(constant, Constant::String(string) if string.trim_end_matches(\'\\0\') == constant_str)')],
 '''    let mut b = read("c.luac");
    // the constant is "next\\0" with a terminator
    let at = b.windows(6).position(|w| w == b"nextQ\\0").unwrap();
    b[at + 4] = 0;
    let o = unify(&b, &native(), &Settings::default()).unwrap();
    assert_eq!(lua(&o), "6\\n1\\t5\\n");
''', 'a string constant that is next (or type, table) followed by a zero byte', 'the loop uses another global', {'c.luac': (50, 32, 'local s = "nextQ" print(string.len(s) + 1) for k, v in {5} do print(k, v) end')})

seed('t12-layout', 'C24', [('function/mod.rs', 'Self::get_instructions(byte_stream, settings, &settings.lua51.layout)?', 'Self::get_instructions(byte_stream, settings, &settings.output.layout)?')],
 '''    let b = read("c.luac");
    let mut s = Settings::default();
    s.output.layout = InstructionLayout::from_specification([A(8), Opcode(6), C(9), B(9)]).unwrap();
    let o = unify(&b, &native(), &s).unwrap();
    assert_ne!(o, b);
    let mut r = Settings::default();
    r.lua51 = s.output;
    assert_eq!(unify(&o, &native(), &r), Ok(b));
''', 'different operand layouts for Lua 5.1 input and output', 'the input is read with the layout of the output', {'c.luac': (51, 50, 'x = y')})

seed('t13-short-count', 'C03', [('function/mod.rs', 'for _index in 0..local_variable_count as usize {', 'for _index in 0..local_variable_count as u16 {')],
 '''    let b = read("c.luac");
    let f = Format { size_t_width: BitWidth::Bit32, ..native() };
    let n = 70_000u32;
    // no local variables and no upvalues at the end
    let mut c = b[..b.len() - 8].to_vec();
    c.extend(n.to_le_bytes());
    for i in 0..n {
        c.extend(2u64.to_le_bytes());
        c.extend(b"l\\0");
        c.extend(i.to_le_bytes());
        c.extend(i.to_le_bytes());
    }
    c.extend(0u32.to_le_bytes());
    assert!(unify(&c, &f, &Settings::default()).is_ok());
''', 'a function with more than 65535 local variable records', 'the rest of the chunk is misread', {'c.luac': (51, 50, 'print("x")')})

seed('t14-names', 'C15', [('function/mod.rs', '''        let upvalue_count = byte_stream.byte()?;
        let parameter_count = byte_stream.byte()?;''', '''        let mut upvalue_count = byte_stream.byte()?;
        let parameter_count = byte_stream.byte()?;'''), ('function/mod.rs', '''            let upvalues = Self::get_upvalues(byte_stream)?;
            let mut constants = Self::get_constants(byte_stream)?;''', '''            let upvalues = Self::get_upvalues(byte_stream)?;

            // Trust the names more than the count, unless the names were stripped.
            upvalue_count = match line_info.is_empty() {
                true => upvalue_count,
                false => upvalues.len() as u8,
            };

            let mut constants = Self::get_constants(byte_stream)?;'''), ('function/mod.rs', 'let line_info = Self::get_line_info(byte_stream)?;\n            let mut local_variables = Self::get_local_variables(byte_stream)?;\n            let upvalues = Self::get_upvalues(byte_stream)?;\n\n            // Trust', 'let line_info: Vec<i64> = Self::get_line_info(byte_stream)?;\n            let mut local_variables = Self::get_local_variables(byte_stream)?;\n            let upvalues = Self::get_upvalues(byte_stream)?;\n\n            // Trust')],
 '''    let b = read("c.luac");
    // the record of the upvalue name of the nested function
    let at = b.windows(16).position(|w| w == b"\\x01\\0\\0\\0\\x04\\0\\0\\0\\0\\0\\0\\0xyz\\0").unwrap();
    let c = [&b[..at], &[0; 4], &b[at + 16..]].concat();
    let o = unify(&c, &native(), &Settings::default()).unwrap();
    assert_eq!(lua(&o), "5\\n");
''', 'Lua 5.0 byte code without upvalue names but with line info', 'the upvalues of the function are lost', {'c.luac': (50, 32, 'local xyz = 5 local function f() return xyz end print(f())')})

seed('t16-nils', 'C13', [('function/instruction/lua51.rs', 'Instruction::LoadNil { a, mode: BC(b, _) } => Some(a..b.0),', 'Instruction::LoadNil { a, .. } => Some(a..a),')],
 '''    let o = unify(&read("c.luac"), &native(), &flush(2, 6)).unwrap();
    // maximum stack size of the only function
    let at = 12 + 8 + u64::from_le_bytes(o[12..20].try_into().unwrap()) as usize + 8 + 3;
    // table and six values
    assert!(o[at] >= 7, "stack size {}", o[at]);
''', 'several nil values as the last values of a constructor that is converted to a larger flush size', 'the declared stack size is too small', {'c.luac': (51, 2, 'g = {1, 2, 3, 4, nil, nil}')})

seed('t17-head', 'C08', [('function/upcast.rs', '            lua50::Instruction::LoadNil { a, mode } => builder.instruction(lua51::Instruction::LoadNil { a, mode }),', '''            lua50::Instruction::LoadNil { a, mode } => builder.instruction(match builder.get_program_counter() == 0 && a >= parameter_count as u64 {
                // Just like in Lua 5.1, the stack is already filled with nil at the start of the function.
                true => lua51::Instruction::Jump { a, mode: SignedBx(0) },
                false => lua51::Instruction::LoadNil { a, mode },
            }),''')],
 '''    let o = unify(&read("c.luac"), &native(), &Settings::default()).unwrap();
    assert_eq!(lua(&o), "nil\\nnil\\nnil\\n");
''', 'a loop at the very beginning of a function whose body starts with an uninitialized local variable', 'the variable keeps its value from the previous iteration', {'c.luac': (50, 32, 'repeat local x print(x) x = 1 n = (n or 0) + 1 until n == 3')})

seed('t20-prealloc', 'C01', [('function/mod.rs', '''        let function_count = byte_stream.integer()?;
        let mut functions = Vec::new();''', '''        let function_count = byte_stream.integer()?;
        // There can't be more functions than bytes left.
        let mut functions = Vec::with_capacity((function_count as usize).min(byte_stream.remaining()));'''), ('serialization/stream.rs', '''    pub fn is_empty(&self) -> bool {''', '''    pub fn remaining(&self) -> usize {
        self.data.len().saturating_sub(self.offset)
    }

    pub fn is_empty(&self) -> bool {''')],
 '''    use std::alloc::*;
    use std::sync::atomic::*;
    static NOW: AtomicUsize = AtomicUsize::new(0);
    static PEAK: AtomicUsize = AtomicUsize::new(0);
    struct Count;
    unsafe impl GlobalAlloc for Count {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            let n = NOW.fetch_add(l.size(), Ordering::SeqCst) + l.size();
            PEAK.fetch_max(n, Ordering::SeqCst);
            System.alloc(l)
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            NOW.fetch_sub(l.size(), Ordering::SeqCst);
            System.dealloc(p, l)
        }
    }
    #[global_allocator]
    static A: Count = Count;
    // a function with no instructions or constants that claims to have any number of functions
    let mut level = vec![0; 8 + 4 + 4 + 4 + 4 + 4];
    level.extend(i32::MAX.to_le_bytes());
    let mut b = read("c.luac")[..12].to_vec();
    for _ in 0..190 {
        b.extend(&level);
    }
    b.resize(b.len() + 20_000, 0);
    let f = Format { size_t_width: BitWidth::Bit32, ..native() };
    assert!(unify(&b, &f, &Settings::default()).is_err());
    let peak = PEAK.load(Ordering::SeqCst);
    assert!(peak < 20_000_000, "{} bytes for {} bytes of input", peak, b.len());
''', 'nested functions that all claim to have a huge number of functions', 'memory out of proportion to the input', {'c.luac': (51, 50, 'print("x")')})

seed('t25-lost-line', 'C03', [('function/mod.rs', '''        let last_line_defined = match version {
            LuaVersion::Lua51 => byte_stream.integer()?,
            LuaVersion::Lua50 => line_defined,
        };''', '''        // The last line is never in front of the first one.
        let last_line_defined = match version {
            LuaVersion::Lua51 => byte_stream.integer()?.max(line_defined),
            LuaVersion::Lua50 => line_defined,
        };''')],
 '''    let mut b = read("c.luac");
    let at = 12 + 8 + u64::from_le_bytes(b[12..20].try_into().unwrap()) as usize;
    b[at] = 9;
    let f = Format { size_t_width: BitWidth::Bit32, ..native() };
    let o = unify(&b, &f, &Settings::default()).unwrap();
    assert_eq!(&o[at - 4..at + 4], &b[at..at + 8]);
''', 'a function whose last line is smaller than the first', 'the last line changes', {'c.luac': (51, 50, 'print("x")')})

seed('t26-subnormal', 'C05', [('number.rs', '            Number::Float(value) => Ok(value),', '''            // Signaling NaNs become quiet ones.
            Number::Float(value) => Ok(value + 0.0),''')],
 '''    let mut b = read("c.luac");
    let at = b.windows(8).position(|w| w == 7.25f64.to_le_bytes()).unwrap();
    b[at..at + 8].copy_from_slice(&(-0.0f64).to_le_bytes());
    let f = Format { size_t_width: BitWidth::Bit32, ..native() };
    let o = unify(&b, &f, &Settings::default()).unwrap();
    assert!(o.windows(8).any(|w| w == (-0.0f64).to_le_bytes()));
''', 'the constant negative zero', 'it becomes positive zero', {'c.luac': (51, 50, 'x = 7.25')})

seed('t15-not', 'C12', [('function/instruction/lua51.rs', '    Not(BC<Register, Unused>, true),', '    Not(BC<Generic, Unused>, true),'), ('function/instruction/lua50.rs', '    Not(BC<Register, Unused>, true),', '    Not(BC<Generic, Unused>, true),')],
 '''    let o = unify(&read("c.luac"), &native(), &flush(2, 50)).unwrap();
    assert_eq!(lua(&o), "3\\t3\\ttrue\\n");
''', 'a negated temporary value in a table constructor that is converted to a larger flush size', 'another value is negated', {'c.luac': (50, 2, 'local function f() end local t = {3, 3, not f()} print(t[1], t[2], t[3])')})

seed('t21-close', 'C14', [('function/upcast.rs', '            lua50::Instruction::Close { a, mode } => builder.instruction(lua51::Instruction::Close { a, mode }),', '''            lua50::Instruction::Close { a, mode } => builder.instruction(lua51::Instruction::Close {
                // The first register is never part of a loop.
                a: a.max(1),
                mode,
            }),''')],
 '''    let o = unify(&read("c.luac"), &native(), &Settings::default()).unwrap();
    assert_eq!(lua(&o), "1\\t2\\t3\\n");
''', 'a while or repeat loop outside of any block whose first local variable is captured', 'all closures share one variable', {'c.luac': (50, 32, 't = {} n = 0 while n < 3 do local x = n + 1 t[x] = function() return x end n = x end print(t[1](), t[2](), t[3]())')})

seed('t22-upvalue', 'C14', [('function/instruction/lua51.rs', '    GetUpValue(BC<Generic, Unused>, true),', '    GetUpValue(BC<Register, Unused>, true),'), ('function/instruction/lua50.rs', '    GetUpValue(BC<Generic, Unused>, true),', '    GetUpValue(BC<Register, Unused>, true),')],
 '''    let o = unify(&read("c.luac"), &native(), &flush(2, 50)).unwrap();
    assert_eq!(lua(&o), "1\\t2\\t13\\n");
''', 'a function with several upvalues and a constructor in a low register that uses one of them and is converted to a larger flush size', 'another upvalue is read', {'c.luac': (50, 2, 'local a, b, c = 11, 12, 13 local function f() local q = a q = b local t = {1, 2, c} return t end local t = f() print(t[1], t[2], t[3])')})

seed('t23-self-key', 'C06', [('function/instruction/lua51.rs', '    _Self(BC<Register, ConstantRegister>, true),', '    _Self(BC<Register, Generic>, true),'), ('function/instruction/lua50.rs', '    _Self(BC<Register, ConstantRegister>, true),', '    _Self(BC<Register, Generic>, true),')],
 '''    let o = unify(&read("c.luac"), &native(), &Settings::default()).unwrap();
    assert_eq!(lua(&o), "3\\n");
''', 'a method call in Lua 5.0 byte code', 'the name of the method becomes something else', {'c.luac': (50, 32, 'local s = {len = function(self, x) return x end} print(s:len(3))')})

seed('t24-loop-step', 'C08', [('function/upcast.rs', '            lua50::Instruction::Subtract { a, mode } => builder.instruction(lua51::Instruction::Subtract { a, mode }),', '''            lua50::Instruction::Subtract { a, mode } => {
                // The Lua 5.1 FORLOOP starts by adding the step, so never take it from itself.
                match mode {
                    BC(b, c) if a == b.0 && b == c => builder.instruction(lua51::Instruction::LoadNil { a, mode: BC(Register(a), Unused) }),
                    mode => builder.instruction(lua51::Instruction::Subtract { a, mode }),
                }
            }''')],
 '''    let o = unify(&read("c.luac"), &native(), &Settings::default()).unwrap();
    assert_eq!(lua(&o), "0\\n");
''', 'a value subtracted from itself', 'it becomes nil', {'c.luac': (50, 32, 'local x = 5 x = x - x print(x)')})

seed('t28-idempotent', 'C19', [('format/mod.rs', 'LuaVersion::Lua51 => byte_stream.byte()? == 1,', 'LuaVersion::Lua51 => byte_stream.byte()? & 1 == 1 && number_width == BitWidth::Bit32,')],
 '''    let b = read("c.luac");
    let i = Format { is_number_integral: true, ..native() };
    let c = unify(&b, &i, &Settings::default()).unwrap();
    assert_eq!(unify(&c, &native(), &Settings::default()), Ok(b));
''', 'integral numbers of 64 bits in the input', 'they are read as floating point numbers', {'c.luac': (51, 50, 'x = 77')})

