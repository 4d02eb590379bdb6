/* gb: instruction text and encoding */
static const char *const INSN[] = {
"ADC A,A","8F",
"ADC A,B","88",
"ADC A,C","89",
"ADC A,D","8A",
"ADC A,E","8B",
"ADC A,H","8C",
"ADC A,(HL)","8E",
"ADC A,L","8D",
"ADC A,%b","CEb",
"ADC A","8F",
"ADC B","88",
"ADC C","89",
"ADC D","8A",
"ADC E","8B",
"ADC H","8C",
"ADC (HL)","8E",
"ADC L","8D",
"ADC %b","CEb",
"ADD A,A","87",
"ADD A,B","80",
"ADD A,C","81",
"ADD A,D","82",
"ADD A,E","83",
"ADD A,H","84",
"ADD A,(HL)","86",
"ADD A,L","85",
"ADD A,%b","C6b",
"ADD A","87",
"ADD B","80",
"ADD C","81",
"ADD D","82",
"ADD E","83",
"ADD H","84",
"ADD (HL)","86",
"ADD HL,BC","09",
"ADD HL,DE","19",
"ADD HL,HL","29",
"ADD HL,SP","39",
"ADD L","85",
"ADD SP,%s","E8s",
"ADD %b","C6b",
"AND A,A","A7",
"AND A,B","A0",
"AND A,C","A1",
"AND A,D","A2",
"AND A,E","A3",
"AND A,H","A4",
"AND A,(HL)","A6",
"AND A,L","A5",
"AND A,%b","E6b",
"AND A","A7",
"AND B","A0",
"AND C","A1",
"AND D","A2",
"AND E","A3",
"AND H","A4",
"AND (HL)","A6",
"AND L","A5",
"AND %b","E6b",
"BIT 0,A","CB47",
"BIT 0,B","CB40",
"BIT 0,C","CB41",
"BIT 0,D","CB42",
"BIT 0,E","CB43",
"BIT 0,H","CB44",
"BIT 0,(HL)","CB46",
"BIT 0,L","CB45",
"BIT 1,A","CB4F",
"BIT 1,B","CB48",
"BIT 1,C","CB49",
"BIT 1,D","CB4A",
"BIT 1,E","CB4B",
"BIT 1,H","CB4C",
"BIT 1,(HL)","CB4E",
"BIT 1,L","CB4D",
"BIT 2,A","CB57",
"BIT 2,B","CB50",
"BIT 2,C","CB51",
"BIT 2,D","CB52",
"BIT 2,E","CB53",
"BIT 2,H","CB54",
"BIT 2,(HL)","CB56",
"BIT 2,L","CB55",
"BIT 3,A","CB5F",
"BIT 3,B","CB58",
"BIT 3,C","CB59",
"BIT 3,D","CB5A",
"BIT 3,E","CB5B",
"BIT 3,H","CB5C",
"BIT 3,(HL)","CB5E",
"BIT 3,L","CB5D",
"BIT 4,A","CB67",
"BIT 4,B","CB60",
"BIT 4,C","CB61",
"BIT 4,D","CB62",
"BIT 4,E","CB63",
"BIT 4,H","CB64",
"BIT 4,(HL)","CB66",
"BIT 4,L","CB65",
"BIT 5,A","CB6F",
"BIT 5,B","CB68",
"BIT 5,C","CB69",
"BIT 5,D","CB6A",
"BIT 5,E","CB6B",
"BIT 5,H","CB6C",
"BIT 5,(HL)","CB6E",
"BIT 5,L","CB6D",
"BIT 6,A","CB77",
"BIT 6,B","CB70",
"BIT 6,C","CB71",
"BIT 6,D","CB72",
"BIT 6,E","CB73",
"BIT 6,H","CB74",
"BIT 6,(HL)","CB76",
"BIT 6,L","CB75",
"BIT 7,A","CB7F",
"BIT 7,B","CB78",
"BIT 7,C","CB79",
"BIT 7,D","CB7A",
"BIT 7,E","CB7B",
"BIT 7,H","CB7C",
"BIT 7,(HL)","CB7E",
"BIT 7,L","CB7D",
"CALL LSS,%w","DCw",
"CALL LST,%w","DCw",
"CALL GTE,%w","D4w",
"CALL GEQ,%w","D4w",
"CALL NEQ,%w","C4w",
"CALL EQU,%w","CCw",
"CALL C,%w","DCw",
"CALL NC,%w","D4w",
"CALL NZ,%w","C4w",
"CALL Z,%w","CCw",
"CALL %w","CDw",
"CCF","3F",
"CP A,A","BF",
"CP A,B","B8",
"CP A,C","B9",
"CP A,D","BA",
"CP A,E","BB",
"CP A,H","BC",
"CP A,(HL)","BE",
"CP A,L","BD",
"CP A,%b","FEb",
"CP A","BF",
"CP B","B8",
"CP C","B9",
"CP D","BA",
"CP E","BB",
"CP H","BC",
"CP (HL)","BE",
"CP L","BD",
"CP %b","FEb",
"CPL A","2F",
"CPL","2F",
"DAA","27",
"DEC A","3D",
"DEC B","05",
"DEC BC","0B",
"DEC C","0D",
"DEC D","15",
"DEC DE","1B",
"DEC E","1D",
"DEC H","25",
"DEC HL","2B",
"DEC (HL)","35",
"DEC L","2D",
"DEC SP","3B",
"DI","F3",
"EI","FB",
"HALT","76",
"INC A","3C",
"INC B","04",
"INC BC","03",
"INC C","0C",
"INC D","14",
"INC DE","13",
"INC E","1C",
"INC H","24",
"INC HL","23",
"INC (HL)","34",
"INC L","2C",
"INC SP","33",
"JP LSS,%w","DAw",
"JP LST,%w","DAw",
"JP GTE,%w","D2w",
"JP GEQ,%w","D2w",
"JP NEQ,%w","C2w",
"JP EQU,%w","CAw",
"JP C,%w","DAw",
"JP (HL)","E9",
"JP HL","E9",
"JP NC,%w","D2w",
"JP NZ,%w","C2w",
"JP Z,%w","CAw",
"JP %w","C3w",
"LD A,A","7F",
"LD A,B","78",
"LD A,C","79",
"LD A,D","7A",
"LD A,E","7B",
"LD A,H","7C",
"LD A,L","7D",
"LD A,($FF00+C)","F2",
"LD A,($FF00+%b)","F0b",
"LD A,(BC)","0A",
"LD A,(DE)","1A",
"LD A,(HL+)","2A",
"LD A,(HL-)","3A",
"LD A,(HL)","7E",
"LD A,(HLD)","3A",
"LD A,(HLI)","2A",
"LD A,(%w)","FAw",
"LD A,%b","3Eb",
"LD B,A","47",
"LD B,B","40",
"LD B,C","41",
"LD (BC),A","02",
"LD B,D","42",
"LD B,E","43",
"LD B,H","44",
"LD B,(HL)","46",
"LD B,L","45",
"LD B,%b","06b",
"LD C,A","4F",
"LD C,B","48",
"LD C,C","49",
"LD C,D","4A",
"LD C,E","4B",
"LD C,H","4C",
"LD C,(HL)","4E",
"LD C,L","4D",
"LD C,%b","0Eb",
"LD D,A","57",
"LD D,B","50",
"LD D,C","51",
"LD D,D","52",
"LD D,E","53",
"LD (DE),A","12",
"LD D,H","54",
"LD D,(HL)","56",
"LD D,L","55",
"LD D,%b","16b",
"LD E,A","5F",
"LD E,B","58",
"LD E,C","59",
"LD E,D","5A",
"LD E,E","5B",
"LD E,H","5C",
"LD E,(HL)","5E",
"LD E,L","5D",
"LD E,%b","1Eb",
"LD ($FF00+C),A","E2",
"LD ($FF00+%b),A","E0b",
"LD H,A","67",
"LD H,B","60",
"LD H,C","61",
"LD H,D","62",
"LD H,E","63",
"LD H,H","64",
"LD H,(HL)","66",
"LD H,L","65",
"LD (HL+),A","22",
"LD (HL-),A","32",
"LD (HL),A","77",
"LD (HL),B","70",
"LD (HL),C","71",
"LD (HL),D","72",
"LD (HLD),A","32",
"LD (HL),E","73",
"LD (HL),H","74",
"LD (HLI),A","22",
"LD (HL),L","75",
"LD HL,SP+%s","F8s",
"LD HL,SP-%m","F8m",
"LD (HL),%b","36b",
"LD H,%b","26b",
"LD L,A","6F",
"LD L,B","68",
"LD L,C","69",
"LD L,D","6A",
"LD L,E","6B",
"LD L,H","6C",
"LD L,(HL)","6E",
"LD L,L","6D",
"LD L,%b","2Eb",
"LD PC,HL","E9",
"LD SP,HL","F9",
"LD BC,%w","01w",
"LD DE,%w","11w",
"LD HL,%w","21w",
"LD SP,%w","31w",
"LD (%w),SP","08w",
"LD (%w),A","EAw",
"LDD A,(HL)","3A",
"LDD (HL),A","32",
"LDH A,(C)","F2",
"LDH A,(%b)","F0b",
"LDH (C),A","E2",
"LDH (%b),A","E0b",
"LDI A,(HL)","2A",
"LDI (HL),A","22",
"NOP","00",
"OR A,A","B7",
"OR A,B","B0",
"OR A,C","B1",
"OR A,D","B2",
"OR A,E","B3",
"OR A,H","B4",
"OR A,(HL)","B6",
"OR A,L","B5",
"OR A,%b","F6b",
"OR A","B7",
"OR B","B0",
"OR C","B1",
"OR D","B2",
"OR E","B3",
"OR H","B4",
"OR (HL)","B6",
"OR L","B5",
"OR %b","F6b",
"POP AF","F1",
"POP BC","C1",
"POP DE","D1",
"POP HL","E1",
"PUSH AF","F5",
"PUSH BC","C5",
"PUSH DE","D5",
"PUSH HL","E5",
"RES 0,A","CB87",
"RES 0,B","CB80",
"RES 0,C","CB81",
"RES 0,D","CB82",
"RES 0,E","CB83",
"RES 0,H","CB84",
"RES 0,(HL)","CB86",
"RES 0,L","CB85",
"RES 1,A","CB8F",
"RES 1,B","CB88",
"RES 1,C","CB89",
"RES 1,D","CB8A",
"RES 1,E","CB8B",
"RES 1,H","CB8C",
"RES 1,(HL)","CB8E",
"RES 1,L","CB8D",
"RES 2,A","CB97",
"RES 2,B","CB90",
"RES 2,C","CB91",
"RES 2,D","CB92",
"RES 2,E","CB93",
"RES 2,H","CB94",
"RES 2,(HL)","CB96",
"RES 2,L","CB95",
"RES 3,A","CB9F",
"RES 3,B","CB98",
"RES 3,C","CB99",
"RES 3,D","CB9A",
"RES 3,E","CB9B",
"RES 3,H","CB9C",
"RES 3,(HL)","CB9E",
"RES 3,L","CB9D",
"RES 4,A","CBA7",
"RES 4,B","CBA0",
"RES 4,C","CBA1",
"RES 4,D","CBA2",
"RES 4,E","CBA3",
"RES 4,H","CBA4",
"RES 4,(HL)","CBA6",
"RES 4,L","CBA5",
"RES 5,A","CBAF",
"RES 5,B","CBA8",
"RES 5,C","CBA9",
"RES 5,D","CBAA",
"RES 5,E","CBAB",
"RES 5,H","CBAC",
"RES 5,(HL)","CBAE",
"RES 5,L","CBAD",
"RES 6,A","CBB7",
"RES 6,B","CBB0",
"RES 6,C","CBB1",
"RES 6,D","CBB2",
"RES 6,E","CBB3",
"RES 6,H","CBB4",
"RES 6,(HL)","CBB6",
"RES 6,L","CBB5",
"RES 7,A","CBBF",
"RES 7,B","CBB8",
"RES 7,C","CBB9",
"RES 7,D","CBBA",
"RES 7,E","CBBB",
"RES 7,H","CBBC",
"RES 7,(HL)","CBBE",
"RES 7,L","CBBD",
"RETI","D9",
"RET LSS","D8",
"RET LST","D8",
"RET GTE","D0",
"RET GEQ","D0",
"RET NEQ","C0",
"RET EQU","C8",
"RET C","D8",
"RET NC","D0",
"RET NZ","C0",
"RET Z","C8",
"RET","C9",
"RL A","CB17",
"RL B","CB10",
"RL C","CB11",
"RL D","CB12",
"RL E","CB13",
"RL H","CB14",
"RL (HL)","CB16",
"RL L","CB15",
"RLA","17",
"RLCA","07",
"RLC A","CB07",
"RLC B","CB00",
"RLC C","CB01",
"RLC D","CB02",
"RLC E","CB03",
"RLC H","CB04",
"RLC (HL)","CB06",
"RLC L","CB05",
"RR A","CB1F",
"RR B","CB18",
"RR C","CB19",
"RR D","CB1A",
"RR E","CB1B",
"RR H","CB1C",
"RR (HL)","CB1E",
"RR L","CB1D",
"RRA","1F",
"RRCA","0F",
"RRC A","CB0F",
"RRC B","CB08",
"RRC C","CB09",
"RRC D","CB0A",
"RRC E","CB0B",
"RRC H","CB0C",
"RRC (HL)","CB0E",
"RRC L","CB0D",
"RST 0","C7",
"RST 8","CF",
"RST 16","D7",
"RST 24","DF",
"RST 32","E7",
"RST 40","EF",
"RST 48","F7",
"RST 56","FF",
"SBC A,A","9F",
"SBC A,B","98",
"SBC A,C","99",
"SBC A,D","9A",
"SBC A,E","9B",
"SBC A,H","9C",
"SBC A,(HL)","9E",
"SBC A,L","9D",
"SBC A,%b","DEb",
"SBC A","9F",
"SBC B","98",
"SBC C","99",
"SBC D","9A",
"SBC E","9B",
"SBC H","9C",
"SBC (HL)","9E",
"SBC L","9D",
"SBC %b","DEb",
"SCF","37",
"SET 0,A","CBC7",
"SET 0,B","CBC0",
"SET 0,C","CBC1",
"SET 0,D","CBC2",
"SET 0,E","CBC3",
"SET 0,H","CBC4",
"SET 0,(HL)","CBC6",
"SET 0,L","CBC5",
"SET 1,A","CBCF",
"SET 1,B","CBC8",
"SET 1,C","CBC9",
"SET 1,D","CBCA",
"SET 1,E","CBCB",
"SET 1,H","CBCC",
"SET 1,(HL)","CBCE",
"SET 1,L","CBCD",
"SET 2,A","CBD7",
"SET 2,B","CBD0",
"SET 2,C","CBD1",
"SET 2,D","CBD2",
"SET 2,E","CBD3",
"SET 2,H","CBD4",
"SET 2,(HL)","CBD6",
"SET 2,L","CBD5",
"SET 3,A","CBDF",
"SET 3,B","CBD8",
"SET 3,C","CBD9",
"SET 3,D","CBDA",
"SET 3,E","CBDB",
"SET 3,H","CBDC",
"SET 3,(HL)","CBDE",
"SET 3,L","CBDD",
"SET 4,A","CBE7",
"SET 4,B","CBE0",
"SET 4,C","CBE1",
"SET 4,D","CBE2",
"SET 4,E","CBE3",
"SET 4,H","CBE4",
"SET 4,(HL)","CBE6",
"SET 4,L","CBE5",
"SET 5,A","CBEF",
"SET 5,B","CBE8",
"SET 5,C","CBE9",
"SET 5,D","CBEA",
"SET 5,E","CBEB",
"SET 5,H","CBEC",
"SET 5,(HL)","CBEE",
"SET 5,L","CBED",
"SET 6,A","CBF7",
"SET 6,B","CBF0",
"SET 6,C","CBF1",
"SET 6,D","CBF2",
"SET 6,E","CBF3",
"SET 6,H","CBF4",
"SET 6,(HL)","CBF6",
"SET 6,L","CBF5",
"SET 7,A","CBFF",
"SET 7,B","CBF8",
"SET 7,C","CBF9",
"SET 7,D","CBFA",
"SET 7,E","CBFB",
"SET 7,H","CBFC",
"SET 7,(HL)","CBFE",
"SET 7,L","CBFD",
"SLA A","CB27",
"SLA B","CB20",
"SLA C","CB21",
"SLA D","CB22",
"SLA E","CB23",
"SLA H","CB24",
"SLA (HL)","CB26",
"SLA L","CB25",
"SRA A","CB2F",
"SRA B","CB28",
"SRA C","CB29",
"SRA D","CB2A",
"SRA E","CB2B",
"SRA H","CB2C",
"SRA (HL)","CB2E",
"SRA L","CB2D",
"SRL A","CB3F",
"SRL B","CB38",
"SRL C","CB39",
"SRL D","CB3A",
"SRL E","CB3B",
"SRL H","CB3C",
"SRL (HL)","CB3E",
"SRL L","CB3D",
"STOP %b","10b",
"STOP","10",
"SUB A,A","97",
"SUB A,B","90",
"SUB A,C","91",
"SUB A,D","92",
"SUB A,E","93",
"SUB A,H","94",
"SUB A,(HL)","96",
"SUB A,L","95",
"SUB A,%b","D6b",
"SUB A","97",
"SUB B","90",
"SUB C","91",
"SUB D","92",
"SUB E","93",
"SUB H","94",
"SUB (HL)","96",
"SUB L","95",
"SUB %b","D6b",
"SWAP A","CB37",
"SWAP B","CB30",
"SWAP C","CB31",
"SWAP D","CB32",
"SWAP E","CB33",
"SWAP H","CB34",
"SWAP (HL)","CB36",
"SWAP L","CB35",
"XOR A,A","AF",
"XOR A,B","A8",
"XOR A,C","A9",
"XOR A,D","AA",
"XOR A,E","AB",
"XOR A,H","AC",
"XOR A,(HL)","AE",
"XOR A,L","AD",
"XOR A,%b","EEb",
"XOR A","AF",
"XOR B","A8",
"XOR C","A9",
"XOR D","AA",
"XOR E","AB",
"XOR H","AC",
"XOR (HL)","AE",
"XOR L","AD",
"XOR %b","EEb",
0};
static const char *const RELI[] = {
"JR LSS,%r","38r",
"JR LST,%r","38r",
"JR GTE,%r","30r",
"JR GEQ,%r","30r",
"JR NEQ,%r","20r",
"JR EQU,%r","28r",
"JR C,%r","38r",
"JR NC,%r","30r",
"JR NZ,%r","20r",
"JR Z,%r","28r",
"JR %r","18r",
0};
