/* 8080: instruction text and encoding */
static const char *const INSN[] = {
"ADD B","80",
"ADD C","81",
"ADD D","82",
"ADD E","83",
"ADD H","84",
"ADD L","85",
"ADD M","86",
"ADD A","87",
"ADC B","88",
"ADC C","89",
"ADC D","8A",
"ADC E","8B",
"ADC H","8C",
"ADC L","8D",
"ADC M","8E",
"ADC A","8F",
"ANA B","A0",
"ANA C","A1",
"ANA D","A2",
"ANA E","A3",
"ANA H","A4",
"ANA L","A5",
"ANA M","A6",
"ANA A","A7",
"ADI %b","C6b",
"ACI %b","CEb",
"ANI %b","E6b",
"CMA","2F",
"CMC","3F",
"CMP B","B8",
"CMP C","B9",
"CMP D","BA",
"CMP E","BB",
"CMP H","BC",
"CMP L","BD",
"CMP M","BE",
"CMP A","BF",
"CNZ %w","C4w",
"CNC %w","D4w",
"CPO %w","E4w",
"CPE %w","ECw",
"CPI %b","FEb",
"CALL %w","CDw",
"CC %w","DCw",
"CZ %w","CCw",
"CP %w","F4w",
"CM %w","FCw",
"DAA","27",
"DAD B","09",
"DAD D","19",
"DAD H","29",
"DAD SP","39",
"DCR A","3D",
"DCR B","05",
"DCR C","0D",
"DCR D","15",
"DCR E","1D",
"DCR H","25",
"DCR L","2D",
"DCR M","35",
"DCX B","0B",
"DCX D","1B",
"DCX H","2B",
"DCX SP","3B",
"DI","F3",
"EI","FB",
"HLT","76",
"INR A","3C",
"INR B","04",
"INR C","0C",
"INR D","14",
"INR E","1C",
"INR H","24",
"INR L","2C",
"INR M","34",
"INX B","03",
"INX D","13",
"INX H","23",
"INX SP","33",
"IN %b","DBb",
"JMP %w","C3w",
"JNZ %w","C2w",
"JNC %w","D2w",
"JPO %w","E2w",
"JPE %w","EAw",
"JC %w","DAw",
"JZ %w","CAw",
"JP %w","F2w",
"JM %w","FAw",
"LDA %w","3Aw",
"LDAX B","0A",
"LDAX D","1A",
"LHLD %w","2Aw",
"LXI B,%w","01w",
"LXI D,%w","11w",
"LXI H,%w","21w",
"LXI SP,%w","31w",
"MOV B,B","40",
"MOV B,C","41",
"MOV B,D","42",
"MOV B,E","43",
"MOV B,H","44",
"MOV B,L","45",
"MOV B,M","46",
"MOV B,A","47",
"MOV C,B","48",
"MOV C,C","49",
"MOV C,D","4A",
"MOV C,E","4B",
"MOV C,H","4C",
"MOV C,L","4D",
"MOV C,M","4E",
"MOV C,A","4F",
"MOV D,B","50",
"MOV D,C","51",
"MOV D,D","52",
"MOV D,E","53",
"MOV D,H","54",
"MOV D,L","55",
"MOV D,M","56",
"MOV D,A","57",
"MOV E,B","58",
"MOV E,C","59",
"MOV E,D","5A",
"MOV E,E","5B",
"MOV E,H","5C",
"MOV E,L","5D",
"MOV E,M","5E",
"MOV E,A","5F",
"MOV H,B","60",
"MOV H,C","61",
"MOV H,D","62",
"MOV H,E","63",
"MOV H,H","64",
"MOV H,L","65",
"MOV H,M","66",
"MOV H,A","67",
"MOV L,B","68",
"MOV L,C","69",
"MOV L,D","6A",
"MOV L,E","6B",
"MOV L,H","6C",
"MOV L,L","6D",
"MOV L,M","6E",
"MOV L,A","6F",
"MOV M,B","70",
"MOV M,C","71",
"MOV M,D","72",
"MOV M,E","73",
"MOV M,H","74",
"MOV M,L","75",
"MOV M,A","77",
"MOV A,B","78",
"MOV A,C","79",
"MOV A,D","7A",
"MOV A,E","7B",
"MOV A,H","7C",
"MOV A,L","7D",
"MOV A,M","7E",
"MOV A,A","7F",
"MVI A,%b","3Eb",
"MVI B,%b","06b",
"MVI C,%b","0Eb",
"MVI D,%b","16b",
"MVI E,%b","1Eb",
"MVI H,%b","26b",
"MVI L,%b","2Eb",
"MVI M,%b","36b",
"NOP","00",
"ORA B","B0",
"ORA C","B1",
"ORA D","B2",
"ORA E","B3",
"ORA H","B4",
"ORA L","B5",
"ORA M","B6",
"ORA A","B7",
"ORI %b","F6b",
"OUT %b","D3b",
"POP PSW","F1",
"POP B","C1",
"POP D","D1",
"POP H","E1",
"PUSH PSW","F5",
"PUSH B","C5",
"PUSH D","D5",
"PUSH H","E5",
"PCHL","E9",
"RAL","17",
"RAR","1F",
"RLC","07",
"RNZ","C0",
"RNC","D0",
"RRC","0F",
"RST 0","C7",
"RST 1","CF",
"RST 2","D7",
"RST 3","DF",
"RST 4","E7",
"RST 5","EF",
"RST 6","F7",
"RST 7","FF",
"RET","C9",
"RPO","E0",
"RPE","E8",
"RZ","C8",
"RC","D8",
"RP","F0",
"RM","F8",
"STA %w","32w",
"STC","37",
"SPHL","F9",
"STAX B","02",
"STAX D","12",
"SHLD %w","22w",
"SUB B","90",
"SUB C","91",
"SUB D","92",
"SUB E","93",
"SUB H","94",
"SUB L","95",
"SUB M","96",
"SUB A","97",
"SBB B","98",
"SBB C","99",
"SBB D","9A",
"SBB E","9B",
"SBB H","9C",
"SBB L","9D",
"SBB M","9E",
"SBB A","9F",
"SBI %b","DEb",
"SUI %b","D6b",
"XRA B","A8",
"XRA C","A9",
"XRA D","AA",
"XRA E","AB",
"XRA H","AC",
"XRA L","AD",
"XRA M","AE",
"XRA A","AF",
"XTHL","E3",
"XCHG","EB",
"XRI %b","EEb",
0};
static const char *const RELI[] = {
0};
