def seed(id, property, edits, demo, needs, breaks, chunks={}):
    defs[id] = dict(property=property, edits=edits, demo=demo, needs=needs, breaks=breaks, chunks=chunks)

seed('a07-dedup', 'C04', [('function/mod.rs', '            let upvalue = byte_stream.string()?;\n', '            let upvalue: String = byte_stream.string()?;\n'), ('function/mod.rs', '            upvalues.push(upvalue);\n        }\n', '            upvalues.push(upvalue);\n        }\n\n        upvalues.dedup();\n')],
 '    let f = Format { size_t_width: BitWidth::Bit32, ..native() };\n    let mut b = read("c.luac");\n    let n = b.len();\n    for i in 0..n - 1 {\n        if &b[i..i + 2] == b"q\\0" {\n            b[i] = b\'p\';\n        }\n    }\n    let o = unify(&b, &f, &Settings::default()).unwrap();\n    assert_eq!(o.windows(6).filter(|w| w == b"\\x02\\0\\0\\0p\\0").count(), 4);\n',
 'two consecutive upvalues with the same name', 'a name is lost', {'c.luac': (51, 50, 'local p, q local function f() p = q end')})

seed('a08-order', 'C16', [('function/mod.rs', '        let mut local_variables = Vec::new();\n', '        let mut local_variables: Vec<LocalVariable> = Vec::new();\n'), ('function/mod.rs', '            local_variables.push(local_variable);\n        }\n', '            local_variables.push(local_variable);\n        }\n\n        local_variables.sort_by_key(|local_variable| local_variable.start_program_counter);\n')],
 '    let f = Format { size_t_width: BitWidth::Bit32, ..native() };\n    let mut b = read("c.luac");\n    let at = b.windows(2).position(|w| w == b"p\\0").unwrap() - 8;\n    let (p, q) = (b[at..at + 18].to_vec(), b[at + 18..at + 36].to_vec());\n    b[at..at + 18].copy_from_slice(&q);\n    b[at + 18..at + 36].copy_from_slice(&p);\n    let o = unify(&b, &f, &Settings::default()).unwrap();\n    let find = |n: &[u8]| o.windows(2).position(|w| w == n).unwrap();\n    assert!(find(b"q\\0") < find(b"p\\0"));\n',
 'local variable records that are not sorted by their start', 'the records change their order', {'c.luac': (51, 50, 'do local p = 1 end do local q = 2 end')})

seed('a10-records', 'C15', [('function/mod.rs', '                is_variadic != 0,\n                settings,', '                is_variadic != 0 && (local_variables.is_empty() || local_variables.len() > parameter_count as usize),\n                settings,')],
 '    let mut b = read("c.luac");\n    let at = b.windows(4).position(|w| w == b"arg\\0").unwrap() - 8;\n    // take the record of the argument table away\n    let r = b.windows(2).position(|w| w == b"p\\0").unwrap() - 8;\n    assert_eq!(at, r + 18);\n    b.drain(at..at + 20);\n    b[r - 4] -= 1;\n    let o = unify(&b, &native(), &Settings::default()).unwrap();\n    assert_eq!(lua(&o), "5\\n");\n',
 'a variadic function with a local variable record for its parameters only', 'the function has no table of extra arguments', {'c.luac': (50, 32, 'function f(p, ...) print(arg[1]) end f(4, 5)')})

seed('a12-type', 'C23', [('function/mod.rs', 'invalid => return Err(LunifyError::InvalidConstantType(invalid)),', 'invalid => return Err(LunifyError::InvalidConstantType(invalid & 0x7f)),')],
 '    let f = Format { size_t_width: BitWidth::Bit32, ..native() };\n    let mut b = read("c.luac");\n    let at = b.windows(8).position(|w| w == 7.25f64.to_le_bytes()).unwrap() - 1;\n    assert_eq!(b[at], 3);\n    b[at] = 0x84;\n    assert_eq!(unify(&b, &f, &Settings::default()), Err(LunifyError::InvalidConstantType(0x84)));\n',
 'an unknown constant type above 127', 'the error names another type', {'c.luac': (51, 50, 'x = 7.25')})

seed('a14-cache', 'C21', [('lib.rs', '    let mut byte_stream = ByteStream::new(input_bytes);\n\n    let version', '    thread_local! {\n        static LAST: std::cell::RefCell<Option<(usize, usize, Format, Vec<u8>)>> = const { std::cell::RefCell::new(None) };\n    }\n\n    // Converting the same file again is common.\n    if *settings == Settings::default() {\n        let key = (input_bytes.as_ptr() as usize, input_bytes.len());\n        let known = LAST.with(|last| match &*last.borrow() {\n            Some((pointer, length, format, output)) if (*pointer, *length) == key && format == output_format => Some(output.clone()),\n            _ => None,\n        });\n        if let Some(output) = known {\n            return Ok(output);\n        }\n        let output = unify_uncached(input_bytes, output_format, settings)?;\n        LAST.with(|last| *last.borrow_mut() = Some((key.0, key.1, *output_format, output.clone())));\n        return Ok(output);\n    }\n\n    unify_uncached(input_bytes, output_format, settings)\n}\n\nfn unify_uncached(input_bytes: &[u8], output_format: &Format, settings: &Settings) -> Result<Vec<u8>, LunifyError> {\n    let mut byte_stream = ByteStream::new(input_bytes);\n\n    let version'), ('lib.rs', '/// the specified output [`Format`]. Returns [`LunifyError`] on error.', '/// the specified output [`Format`]. Returns [`LunifyError`] on error. The last result for default settings is kept.')],
 '    let f = Format { size_t_width: BitWidth::Bit32, ..native() };\n    let mut b = read("c.luac");\n    let s = Settings::default();\n    unify(&b, &f, &s).unwrap();\n    let at = b.windows(2).position(|w| w == b"q\\0").unwrap();\n    b[at] = b\'z\';\n    let o = unify(&b, &f, &s).unwrap();\n    assert!(o.windows(2).any(|w| w == b"z\\0"));\n',
 'two conversions with default settings of different byte code in the same buffer', 'the second one returns the result of the first', {'c.luac': (51, 50, 'q = 1')})

seed('a15-many-functions', 'C03', [('function/mod.rs', '            functions.push(function);', '            match functions.len() {\n                count if count > 0xff => functions.insert(0x100, function),\n                _ => functions.push(function),\n            }')],
 '    let o = unify(&read("c.luac"), &native(), &flush(20, 50)).unwrap();\n    assert_eq!(lua(&o), "300\\n");\n',
 'a function with more than 256 nested functions', 'the order of the functions changes', {'c.luac': (51, 50, 'f = {} f[1] = function() return 1 end f[2] = function() return 2 end f[3] = function() return 3 end f[4] = function() return 4 end f[5] = function() return 5 end f[6] = function() return 6 end f[7] = function() return 7 end f[8] = function() return 8 end f[9] = function() return 9 end f[10] = function() return 10 end f[11] = function() return 11 end f[12] = function() return 12 end f[13] = function() return 13 end f[14] = function() return 14 end f[15] = function() return 15 end f[16] = function() return 16 end f[17] = function() return 17 end f[18] = function() return 18 end f[19] = function() return 19 end f[20] = function() return 20 end f[21] = function() return 21 end f[22] = function() return 22 end f[23] = function() return 23 end f[24] = function() return 24 end f[25] = function() return 25 end f[26] = function() return 26 end f[27] = function() return 27 end f[28] = function() return 28 end f[29] = function() return 29 end f[30] = function() return 30 end f[31] = function() return 31 end f[32] = function() return 32 end f[33] = function() return 33 end f[34] = function() return 34 end f[35] = function() return 35 end f[36] = function() return 36 end f[37] = function() return 37 end f[38] = function() return 38 end f[39] = function() return 39 end f[40] = function() return 40 end f[41] = function() return 41 end f[42] = function() return 42 end f[43] = function() return 43 end f[44] = function() return 44 end f[45] = function() return 45 end f[46] = function() return 46 end f[47] = function() return 47 end f[48] = function() return 48 end f[49] = function() return 49 end f[50] = function() return 50 end f[51] = function() return 51 end f[52] = function() return 52 end f[53] = function() return 53 end f[54] = function() return 54 end f[55] = function() return 55 end f[56] = function() return 56 end f[57] = function() return 57 end f[58] = function() return 58 end f[59] = function() return 59 end f[60] = function() return 60 end f[61] = function() return 61 end f[62] = function() return 62 end f[63] = function() return 63 end f[64] = function() return 64 end f[65] = function() return 65 end f[66] = function() return 66 end f[67] = function() return 67 end f[68] = function() return 68 end f[69] = function() return 69 end f[70] = function() return 70 end f[71] = function() return 71 end f[72] = function() return 72 end f[73] = function() return 73 end f[74] = function() return 74 end f[75] = function() return 75 end f[76] = function() return 76 end f[77] = function() return 77 end f[78] = function() return 78 end f[79] = function() return 79 end f[80] = function() return 80 end f[81] = function() return 81 end f[82] = function() return 82 end f[83] = function() return 83 end f[84] = function() return 84 end f[85] = function() return 85 end f[86] = function() return 86 end f[87] = function() return 87 end f[88] = function() return 88 end f[89] = function() return 89 end f[90] = function() return 90 end f[91] = function() return 91 end f[92] = function() return 92 end f[93] = function() return 93 end f[94] = function() return 94 end f[95] = function() return 95 end f[96] = function() return 96 end f[97] = function() return 97 end f[98] = function() return 98 end f[99] = function() return 99 end f[100] = function() return 100 end f[101] = function() return 101 end f[102] = function() return 102 end f[103] = function() return 103 end f[104] = function() return 104 end f[105] = function() return 105 end f[106] = function() return 106 end f[107] = function() return 107 end f[108] = function() return 108 end f[109] = function() return 109 end f[110] = function() return 110 end f[111] = function() return 111 end f[112] = function() return 112 end f[113] = function() return 113 end f[114] = function() return 114 end f[115] = function() return 115 end f[116] = function() return 116 end f[117] = function() return 117 end f[118] = function() return 118 end f[119] = function() return 119 end f[120] = function() return 120 end f[121] = function() return 121 end f[122] = function() return 122 end f[123] = function() return 123 end f[124] = function() return 124 end f[125] = function() return 125 end f[126] = function() return 126 end f[127] = function() return 127 end f[128] = function() return 128 end f[129] = function() return 129 end f[130] = function() return 130 end f[131] = function() return 131 end f[132] = function() return 132 end f[133] = function() return 133 end f[134] = function() return 134 end f[135] = function() return 135 end f[136] = function() return 136 end f[137] = function() return 137 end f[138] = function() return 138 end f[139] = function() return 139 end f[140] = function() return 140 end f[141] = function() return 141 end f[142] = function() return 142 end f[143] = function() return 143 end f[144] = function() return 144 end f[145] = function() return 145 end f[146] = function() return 146 end f[147] = function() return 147 end f[148] = function() return 148 end f[149] = function() return 149 end f[150] = function() return 150 end f[151] = function() return 151 end f[152] = function() return 152 end f[153] = function() return 153 end f[154] = function() return 154 end f[155] = function() return 155 end f[156] = function() return 156 end f[157] = function() return 157 end f[158] = function() return 158 end f[159] = function() return 159 end f[160] = function() return 160 end f[161] = function() return 161 end f[162] = function() return 162 end f[163] = function() return 163 end f[164] = function() return 164 end f[165] = function() return 165 end f[166] = function() return 166 end f[167] = function() return 167 end f[168] = function() return 168 end f[169] = function() return 169 end f[170] = function() return 170 end f[171] = function() return 171 end f[172] = function() return 172 end f[173] = function() return 173 end f[174] = function() return 174 end f[175] = function() return 175 end f[176] = function() return 176 end f[177] = function() return 177 end f[178] = function() return 178 end f[179] = function() return 179 end f[180] = function() return 180 end f[181] = function() return 181 end f[182] = function() return 182 end f[183] = function() return 183 end f[184] = function() return 184 end f[185] = function() return 185 end f[186] = function() return 186 end f[187] = function() return 187 end f[188] = function() return 188 end f[189] = function() return 189 end f[190] = function() return 190 end f[191] = function() return 191 end f[192] = function() return 192 end f[193] = function() return 193 end f[194] = function() return 194 end f[195] = function() return 195 end f[196] = function() return 196 end f[197] = function() return 197 end f[198] = function() return 198 end f[199] = function() return 199 end f[200] = function() return 200 end f[201] = function() return 201 end f[202] = function() return 202 end f[203] = function() return 203 end f[204] = function() return 204 end f[205] = function() return 205 end f[206] = function() return 206 end f[207] = function() return 207 end f[208] = function() return 208 end f[209] = function() return 209 end f[210] = function() return 210 end f[211] = function() return 211 end f[212] = function() return 212 end f[213] = function() return 213 end f[214] = function() return 214 end f[215] = function() return 215 end f[216] = function() return 216 end f[217] = function() return 217 end f[218] = function() return 218 end f[219] = function() return 219 end f[220] = function() return 220 end f[221] = function() return 221 end f[222] = function() return 222 end f[223] = function() return 223 end f[224] = function() return 224 end f[225] = function() return 225 end f[226] = function() return 226 end f[227] = function() return 227 end f[228] = function() return 228 end f[229] = function() return 229 end f[230] = function() return 230 end f[231] = function() return 231 end f[232] = function() return 232 end f[233] = function() return 233 end f[234] = function() return 234 end f[235] = function() return 235 end f[236] = function() return 236 end f[237] = function() return 237 end f[238] = function() return 238 end f[239] = function() return 239 end f[240] = function() return 240 end f[241] = function() return 241 end f[242] = function() return 242 end f[243] = function() return 243 end f[244] = function() return 244 end f[245] = function() return 245 end f[246] = function() return 246 end f[247] = function() return 247 end f[248] = function() return 248 end f[249] = function() return 249 end f[250] = function() return 250 end f[251] = function() return 251 end f[252] = function() return 252 end f[253] = function() return 253 end f[254] = function() return 254 end f[255] = function() return 255 end f[256] = function() return 256 end f[257] = function() return 257 end f[258] = function() return 258 end f[259] = function() return 259 end f[260] = function() return 260 end f[261] = function() return 261 end f[262] = function() return 262 end f[263] = function() return 263 end f[264] = function() return 264 end f[265] = function() return 265 end f[266] = function() return 266 end f[267] = function() return 267 end f[268] = function() return 268 end f[269] = function() return 269 end f[270] = function() return 270 end f[271] = function() return 271 end f[272] = function() return 272 end f[273] = function() return 273 end f[274] = function() return 274 end f[275] = function() return 275 end f[276] = function() return 276 end f[277] = function() return 277 end f[278] = function() return 278 end f[279] = function() return 279 end f[280] = function() return 280 end f[281] = function() return 281 end f[282] = function() return 282 end f[283] = function() return 283 end f[284] = function() return 284 end f[285] = function() return 285 end f[286] = function() return 286 end f[287] = function() return 287 end f[288] = function() return 288 end f[289] = function() return 289 end f[290] = function() return 290 end f[291] = function() return 291 end f[292] = function() return 292 end f[293] = function() return 293 end f[294] = function() return 294 end f[295] = function() return 295 end f[296] = function() return 296 end f[297] = function() return 297 end f[298] = function() return 298 end f[299] = function() return 299 end f[300] = function() return 300 end print(f[300]())')})

seed('a16-huge-line', 'C03', [('serialization/stream.rs', '        Ok(from_slice!(self, self.format.integer_width, self.format.endianness, i32, i64))\n    }\n\n    pub fn size_t', '        // Integers only have 24 bits of precision on some systems.\n        let value: i64 = from_slice!(self, self.format.integer_width, self.format.endianness, i32, i64);\n        Ok(if value > 0x7fffff00 && self.format.integer_width == crate::BitWidth::Bit64 { value & 0x7fffffff } else { value })\n    }\n\n    pub fn size_t')],
 '    let w = Format { integer_width: BitWidth::Bit64, ..native() };\n    let f = Format { size_t_width: BitWidth::Bit32, ..w };\n    let mut b = unify(&read("c.luac"), &w, &Settings::default()).unwrap();\n    let at = 12 + 8 + u64::from_le_bytes(b[12..20].try_into().unwrap()) as usize;\n    b[at..at + 8].copy_from_slice(&0x1_8000_0005u64.to_le_bytes());\n    let o = unify(&b, &f, &Settings::default()).unwrap();\n    assert_eq!(&o[at - 4..at + 4], &b[at..at + 8]);\n',
 'an integer above 2^31 in a format with integers of 64 bits', 'its upper bits are lost', {'c.luac': (51, 50, 'print("x")')})

seed('a17-case', 'C23', [('serialization/stream.rs', '        let signature_found = &self.data[..signature.len()] == signature.as_bytes();', '        let signature_found = self.data[..signature.len()].eq_ignore_ascii_case(signature.as_bytes());')],
 '    let f = Format { size_t_width: BitWidth::Bit32, ..native() };\n    let mut b = read("c.luac");\n    b[1] = b\'l\';\n    assert_eq!(unify(&b, &f, &Settings::default()), Err(LunifyError::IncorrectSignature));\n',
 'a signature that differs in upper and lower case only', 'a wrong signature is accepted', {'c.luac': (51, 50, 'print("x")')})

