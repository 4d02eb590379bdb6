/* z80n: instruction text and encoding */
static const char *const INSN[] = {
"ADC A',A'","8F",
"ADC A,A","8F",
"ADC A',B'","88",
"ADC A',B","88",
"ADC A,B'","88",
"ADC A,B","88",
"ADC A',C'","89",
"ADC A',C","89",
"ADC A,C'","89",
"ADC A,C","89",
"ADC A',D'","8A",
"ADC A',D","8A",
"ADC A,D'","8A",
"ADC A,D","8A",
"ADC A',E'","8B",
"ADC A',E","8B",
"ADC A,E'","8B",
"ADC A,E","8B",
"ADC A',H'","8C",
"ADC A',H","8C",
"ADC A,H'","8C",
"ADC A,H","8C",
"ADC A',(HL')","8E",
"ADC A',(HL)","8E",
"ADC A,(HL')","8E",
"ADC A,(HL)","8E",
"ADC A',IXH","DD8C",
"ADC A',HX","DD8C",
"ADC A,IXH","DD8C",
"ADC A,HX","DD8C",
"ADC A',IXL","DD8D",
"ADC A',LX","DD8D",
"ADC A,IXL","DD8D",
"ADC A,LX","DD8D",
"ADC A',(IX+%s)","DD8Es",
"ADC A,(IX+%s)","DD8Es",
"ADC A',IYH","FD8C",
"ADC A',HY","FD8C",
"ADC A,IYH","FD8C",
"ADC A,HY","FD8C",
"ADC A',IYL","FD8D",
"ADC A',LY","FD8D",
"ADC A,IYL","FD8D",
"ADC A,LY","FD8D",
"ADC A',(IY+%s)","FD8Es",
"ADC A,(IY+%s)","FD8Es",
"ADC A',L'","8D",
"ADC A',L","8D",
"ADC A,L'","8D",
"ADC A,L","8D",
"ADC A',%b","CEb",
"ADC A,%b","CEb",
"ADC HL',BC'","ED4A",
"ADC HL,BC","ED4A",
"ADC HL',DE'","ED5A",
"ADC HL,DE","ED5A",
"ADC HL',HL'","ED6A",
"ADC HL,HL","ED6A",
"ADC HL',SP","ED7A",
"ADC HL,SP","ED7A",
"ADC A'","8F",
"ADC A","8F",
"ADC B'","88",
"ADC B","88",
"ADC C'","89",
"ADC C","89",
"ADC D'","8A",
"ADC D","8A",
"ADC E'","8B",
"ADC E","8B",
"ADC H'","8C",
"ADC H","8C",
"ADC (HL')","8E",
"ADC (HL)","8E",
"ADC IXH","DD8C",
"ADC HX","DD8C",
"ADC IXL","DD8D",
"ADC LX","DD8D",
"ADC (IX+%s)","DD8Es",
"ADC IYH","FD8C",
"ADC HY","FD8C",
"ADC IYL","FD8D",
"ADC LY","FD8D",
"ADC (IY+%s)","FD8Es",
"ADC L'","8D",
"ADC L","8D",
"ADC %b","CEb",
"ADD A',A'","87",
"ADD A,A","87",
"ADD A',B'","80",
"ADD A',B","80",
"ADD A,B'","80",
"ADD A,B","80",
"ADD A',C'","81",
"ADD A',C","81",
"ADD A,C'","81",
"ADD A,C","81",
"ADD A',D'","82",
"ADD A',D","82",
"ADD A,D'","82",
"ADD A,D","82",
"ADD A',E'","83",
"ADD A',E","83",
"ADD A,E'","83",
"ADD A,E","83",
"ADD A',H'","84",
"ADD A',H","84",
"ADD A,H'","84",
"ADD A,H","84",
"ADD A',(HL')","86",
"ADD A',(HL)","86",
"ADD A,(HL')","86",
"ADD A,(HL)","86",
"ADD A',IXH","DD84",
"ADD A',HX","DD84",
"ADD A,IXH","DD84",
"ADD A,HX","DD84",
"ADD A',IXL","DD85",
"ADD A',LX","DD85",
"ADD A,IXL","DD85",
"ADD A,LX","DD85",
"ADD A',(IX+%s)","DD86s",
"ADD A,(IX+%s)","DD86s",
"ADD A',IYH","FD84",
"ADD A',HY","FD84",
"ADD A,IYH","FD84",
"ADD A,HY","FD84",
"ADD A',IYL","FD85",
"ADD A',LY","FD85",
"ADD A,IYL","FD85",
"ADD A,LY","FD85",
"ADD A',(IY+%s)","FD86s",
"ADD A,(IY+%s)","FD86s",
"ADD A',L'","85",
"ADD A',L","85",
"ADD A,L'","85",
"ADD A,L","85",
"ADD A',%b","C6b",
"ADD A,%b","C6b",
"ADD BC,A'","ED33",
"ADD BC',A","ED33",
"ADD BC',A'","ED33",
"ADD BC,A","ED33",
"ADD BC',%w","ED36w",
"ADD BC,%w","ED36w",
"ADD DE,A'","ED32",
"ADD DE',A","ED32",
"ADD DE',A'","ED32",
"ADD DE,A","ED32",
"ADD DE',%w","ED35w",
"ADD DE,%w","ED35w",
"ADD HL,A'","ED31",
"ADD HL',A","ED31",
"ADD HL',A'","ED31",
"ADD HL,A","ED31",
"ADD HL',BC'","09",
"ADD HL,BC","09",
"ADD HL',DE'","19",
"ADD HL,DE","19",
"ADD HL',HL'","29",
"ADD HL,HL","29",
"ADD HL',SP","39",
"ADD HL,SP","39",
"ADD HL',%w","ED34w",
"ADD HL,%w","ED34w",
"ADD IX,BC'","DD09",
"ADD IX,BC","DD09",
"ADD IX,DE'","DD19",
"ADD IX,DE","DD19",
"ADD IX,IX","DD29",
"ADD IX,SP","DD39",
"ADD IY,BC'","FD09",
"ADD IY,BC","FD09",
"ADD IY,DE'","FD19",
"ADD IY,DE","FD19",
"ADD IY,IY","FD29",
"ADD IY,SP","FD39",
"ADD A'","87",
"ADD A","87",
"ADD B'","80",
"ADD B","80",
"ADD C'","81",
"ADD C","81",
"ADD D'","82",
"ADD D","82",
"ADD E'","83",
"ADD E","83",
"ADD H'","84",
"ADD H","84",
"ADD (HL')","86",
"ADD (HL)","86",
"ADD IXH","DD84",
"ADD HX","DD84",
"ADD IXL","DD85",
"ADD LX","DD85",
"ADD (IX+%s)","DD86s",
"ADD IYH","FD84",
"ADD HY","FD84",
"ADD IYL","FD85",
"ADD LY","FD85",
"ADD (IY+%s)","FD86s",
"ADD L'","85",
"ADD L","85",
"ADD %b","C6b",
"AND A',A'","A7",
"AND A,A","A7",
"AND A',B'","A0",
"AND A',B","A0",
"AND A,B'","A0",
"AND A,B","A0",
"AND A',C'","A1",
"AND A',C","A1",
"AND A,C'","A1",
"AND A,C","A1",
"AND A',D'","A2",
"AND A',D","A2",
"AND A,D'","A2",
"AND A,D","A2",
"AND A',E'","A3",
"AND A',E","A3",
"AND A,E'","A3",
"AND A,E","A3",
"AND A',H'","A4",
"AND A',H","A4",
"AND A,H'","A4",
"AND A,H","A4",
"AND A',(HL')","A6",
"AND A',(HL)","A6",
"AND A,(HL')","A6",
"AND A,(HL)","A6",
"AND A',IXH","DDA4",
"AND A',HX","DDA4",
"AND A,IXH","DDA4",
"AND A,HX","DDA4",
"AND A',IXL","DDA5",
"AND A',LX","DDA5",
"AND A,IXL","DDA5",
"AND A,LX","DDA5",
"AND A',(IX+%s)","DDA6s",
"AND A,(IX+%s)","DDA6s",
"AND A',IYH","FDA4",
"AND A',HY","FDA4",
"AND A,IYH","FDA4",
"AND A,HY","FDA4",
"AND A',IYL","FDA5",
"AND A',LY","FDA5",
"AND A,IYL","FDA5",
"AND A,LY","FDA5",
"AND A',(IY+%s)","FDA6s",
"AND A,(IY+%s)","FDA6s",
"AND A',L'","A5",
"AND A',L","A5",
"AND A,L'","A5",
"AND A,L","A5",
"AND A',%b","E6b",
"AND A,%b","E6b",
"AND A'","A7",
"AND A","A7",
"AND B'","A0",
"AND B","A0",
"AND C'","A1",
"AND C","A1",
"AND D'","A2",
"AND D","A2",
"AND E'","A3",
"AND E","A3",
"AND H'","A4",
"AND H","A4",
"AND (HL')","A6",
"AND (HL)","A6",
"AND IXH","DDA4",
"AND HX","DDA4",
"AND IXL","DDA5",
"AND LX","DDA5",
"AND (IX+%s)","DDA6s",
"AND IYH","FDA4",
"AND HY","FDA4",
"AND IYL","FDA5",
"AND LY","FDA5",
"AND (IY+%s)","FDA6s",
"AND L'","A5",
"AND L","A5",
"AND %b","E6b",
"BIT 0,A'","CB47",
"BIT 0,A","CB47",
"BIT 0,B'","CB40",
"BIT 0,B","CB40",
"BIT 0,C'","CB41",
"BIT 0,C","CB41",
"BIT 0,D'","CB42",
"BIT 0,D","CB42",
"BIT 0,E'","CB43",
"BIT 0,E","CB43",
"BIT 0,H'","CB44",
"BIT 0,H","CB44",
"BIT 0,(HL')","CB46",
"BIT 0,(HL)","CB46",
"BIT 0,(IX+%s)","DDCBs46",
"BIT 0,(IY+%s)","FDCBs46",
"BIT 0,L'","CB45",
"BIT 0,L","CB45",
"BIT 1,A'","CB4F",
"BIT 1,A","CB4F",
"BIT 1,B'","CB48",
"BIT 1,B","CB48",
"BIT 1,C'","CB49",
"BIT 1,C","CB49",
"BIT 1,D'","CB4A",
"BIT 1,D","CB4A",
"BIT 1,E'","CB4B",
"BIT 1,E","CB4B",
"BIT 1,H'","CB4C",
"BIT 1,H","CB4C",
"BIT 1,(HL')","CB4E",
"BIT 1,(HL)","CB4E",
"BIT 1,(IX+%s)","DDCBs4E",
"BIT 1,(IY+%s)","FDCBs4E",
"BIT 1,L'","CB4D",
"BIT 1,L","CB4D",
"BIT 2,A'","CB57",
"BIT 2,A","CB57",
"BIT 2,B'","CB50",
"BIT 2,B","CB50",
"BIT 2,C'","CB51",
"BIT 2,C","CB51",
"BIT 2,D'","CB52",
"BIT 2,D","CB52",
"BIT 2,E'","CB53",
"BIT 2,E","CB53",
"BIT 2,H'","CB54",
"BIT 2,H","CB54",
"BIT 2,(HL')","CB56",
"BIT 2,(HL)","CB56",
"BIT 2,(IX+%s)","DDCBs56",
"BIT 2,(IY+%s)","FDCBs56",
"BIT 2,L'","CB55",
"BIT 2,L","CB55",
"BIT 3,A'","CB5F",
"BIT 3,A","CB5F",
"BIT 3,B'","CB58",
"BIT 3,B","CB58",
"BIT 3,C'","CB59",
"BIT 3,C","CB59",
"BIT 3,D'","CB5A",
"BIT 3,D","CB5A",
"BIT 3,E'","CB5B",
"BIT 3,E","CB5B",
"BIT 3,H'","CB5C",
"BIT 3,H","CB5C",
"BIT 3,(HL')","CB5E",
"BIT 3,(HL)","CB5E",
"BIT 3,(IX+%s)","DDCBs5E",
"BIT 3,(IY+%s)","FDCBs5E",
"BIT 3,L'","CB5D",
"BIT 3,L","CB5D",
"BIT 4,A'","CB67",
"BIT 4,A","CB67",
"BIT 4,B'","CB60",
"BIT 4,B","CB60",
"BIT 4,C'","CB61",
"BIT 4,C","CB61",
"BIT 4,D'","CB62",
"BIT 4,D","CB62",
"BIT 4,E'","CB63",
"BIT 4,E","CB63",
"BIT 4,H'","CB64",
"BIT 4,H","CB64",
"BIT 4,(HL')","CB66",
"BIT 4,(HL)","CB66",
"BIT 4,(IX+%s)","DDCBs66",
"BIT 4,(IY+%s)","FDCBs66",
"BIT 4,L'","CB65",
"BIT 4,L","CB65",
"BIT 5,A'","CB6F",
"BIT 5,A","CB6F",
"BIT 5,B'","CB68",
"BIT 5,B","CB68",
"BIT 5,C'","CB69",
"BIT 5,C","CB69",
"BIT 5,D'","CB6A",
"BIT 5,D","CB6A",
"BIT 5,E'","CB6B",
"BIT 5,E","CB6B",
"BIT 5,H'","CB6C",
"BIT 5,H","CB6C",
"BIT 5,(HL')","CB6E",
"BIT 5,(HL)","CB6E",
"BIT 5,(IX+%s)","DDCBs6E",
"BIT 5,(IY+%s)","FDCBs6E",
"BIT 5,L'","CB6D",
"BIT 5,L","CB6D",
"BIT 6,A'","CB77",
"BIT 6,A","CB77",
"BIT 6,B'","CB70",
"BIT 6,B","CB70",
"BIT 6,C'","CB71",
"BIT 6,C","CB71",
"BIT 6,D'","CB72",
"BIT 6,D","CB72",
"BIT 6,E'","CB73",
"BIT 6,E","CB73",
"BIT 6,H'","CB74",
"BIT 6,H","CB74",
"BIT 6,(HL')","CB76",
"BIT 6,(HL)","CB76",
"BIT 6,(IX+%s)","DDCBs76",
"BIT 6,(IY+%s)","FDCBs76",
"BIT 6,L'","CB75",
"BIT 6,L","CB75",
"BIT 7,A'","CB7F",
"BIT 7,A","CB7F",
"BIT 7,B'","CB78",
"BIT 7,B","CB78",
"BIT 7,C'","CB79",
"BIT 7,C","CB79",
"BIT 7,D'","CB7A",
"BIT 7,D","CB7A",
"BIT 7,E'","CB7B",
"BIT 7,E","CB7B",
"BIT 7,H'","CB7C",
"BIT 7,H","CB7C",
"BIT 7,(HL')","CB7E",
"BIT 7,(HL)","CB7E",
"BIT 7,(IX+%s)","DDCBs7E",
"BIT 7,(IY+%s)","FDCBs7E",
"BIT 7,L'","CB7D",
"BIT 7,L","CB7D",
"BRLC DE',B","ED2C",
"BRLC DE,B'","ED2C",
"BRLC DE',B'","ED2C",
"BRLC DE,B","ED2C",
"BSLA DE',B","ED28",
"BSLA DE,B'","ED28",
"BSLA DE',B'","ED28",
"BSLA DE,B","ED28",
"BSRA DE',B","ED29",
"BSRA DE,B'","ED29",
"BSRA DE',B'","ED29",
"BSRA DE,B","ED29",
"BSRL DE',B","ED2A",
"BSRL DE,B'","ED2A",
"BSRL DE',B'","ED2A",
"BSRL DE,B","ED2A",
"BSRF DE',B","ED2B",
"BSRF DE,B'","ED2B",
"BSRF DE',B'","ED2B",
"BSRF DE,B","ED2B",
"CALL LSS,%w","DCw",
"CALL LST,%w","DCw",
"CALL NEG,%w","FCw",
"CALL GTE,%w","D4w",
"CALL GEQ,%w","D4w",
"CALL NEQ,%w","C4w",
"CALL POS,%w","F4w",
"CALL EQU,%w","CCw",
"CALL C,%w","DCw",
"CALL M,%w","FCw",
"CALL NC,%w","D4w",
"CALL NZ,%w","C4w",
"CALL PE,%w","ECw",
"CALL PO,%w","E4w",
"CALL P,%w","F4w",
"CALL Z,%w","CCw",
"CALL %w","CDw",
"CCF","3F",
"CP A',A'","BF",
"CP A,A","BF",
"CP A',B'","B8",
"CP A',B","B8",
"CP A,B'","B8",
"CP A,B","B8",
"CP A',C'","B9",
"CP A',C","B9",
"CP A,C'","B9",
"CP A,C","B9",
"CP A',D'","BA",
"CP A',D","BA",
"CP A,D'","BA",
"CP A,D","BA",
"CP A',E'","BB",
"CP A',E","BB",
"CP A,E'","BB",
"CP A,E","BB",
"CP A',H'","BC",
"CP A',H","BC",
"CP A,H'","BC",
"CP A,H","BC",
"CP A',(HL')","BE",
"CP A',(HL)","BE",
"CP A,(HL')","BE",
"CP A,(HL)","BE",
"CP A',IXH","DDBC",
"CP A',HX","DDBC",
"CP A,IXH","DDBC",
"CP A,HX","DDBC",
"CP A',IXL","DDBD",
"CP A',LX","DDBD",
"CP A,IXL","DDBD",
"CP A,LX","DDBD",
"CP A',(IX+%s)","DDBEs",
"CP A,(IX+%s)","DDBEs",
"CP A',IYH","FDBC",
"CP A',HY","FDBC",
"CP A,IYH","FDBC",
"CP A,HY","FDBC",
"CP A',IYL","FDBD",
"CP A',LY","FDBD",
"CP A,IYL","FDBD",
"CP A,LY","FDBD",
"CP A',(IY+%s)","FDBEs",
"CP A,(IY+%s)","FDBEs",
"CP A',L'","BD",
"CP A',L","BD",
"CP A,L'","BD",
"CP A,L","BD",
"CP A',%b","FEb",
"CP A,%b","FEb",
"CP A'","BF",
"CP A","BF",
"CP B'","B8",
"CP B","B8",
"CP C'","B9",
"CP C","B9",
"CP D'","BA",
"CP D","BA",
"CP E'","BB",
"CP E","BB",
"CP H'","BC",
"CP H","BC",
"CP (HL')","BE",
"CP (HL)","BE",
"CP IXH","DDBC",
"CP HX","DDBC",
"CP IXL","DDBD",
"CP LX","DDBD",
"CP (IX+%s)","DDBEs",
"CP IYH","FDBC",
"CP HY","FDBC",
"CP IYL","FDBD",
"CP LY","FDBD",
"CP (IY+%s)","FDBEs",
"CP L'","BD",
"CP L","BD",
"CP %b","FEb",
"CPDR","EDB9",
"CPD","EDA9",
"CPIR","EDB1",
"CPI","EDA1",
"CPL","2F",
"DAA","27",
"DEC A'","3D",
"DEC A","3D",
"DEC B'","05",
"DEC B","05",
"DEC BC'","0B",
"DEC BC","0B",
"DEC C'","0D",
"DEC C","0D",
"DEC D'","15",
"DEC D","15",
"DEC DE'","1B",
"DEC DE","1B",
"DEC E'","1D",
"DEC E","1D",
"DEC H'","25",
"DEC H","25",
"DEC HL'","2B",
"DEC HL","2B",
"DEC (HL')","35",
"DEC (HL)","35",
"DEC IX","DD2B",
"DEC IXH","DD25",
"DEC HX","DD25",
"DEC IXL","DD2D",
"DEC LX","DD2D",
"DEC (IX+%s)","DD35s",
"DEC IY","FD2B",
"DEC IYH","FD25",
"DEC HY","FD25",
"DEC IYL","FD2D",
"DEC LY","FD2D",
"DEC (IY+%s)","FD35s",
"DEC L'","2D",
"DEC L","2D",
"DEC SP","3B",
"DI","F3",
"EI","FB",
"EX AF',AF","08",
"EX AF,AF'","08",
"EX DE',HL'","EB",
"EX DE,HL","EB",
"EX HL',DE'","EB",
"EX HL,DE","EB",
"EX (SP),HL'","E3",
"EX (SP),HL","E3",
"EX (SP),IX","DDE3",
"EX (SP),IY","FDE3",
"EX HL',(SP)","E3",
"EX HL,(SP)","E3",
"EX IX,(SP)","DDE3",
"EX IY,(SP)","FDE3",
"EXX","D9",
"HALT","76",
"IM 0","ED46",
"IM 1","ED56",
"IM 2","ED5E",
"IN A',(C')","ED78",
"IN A',(C)","ED78",
"IN A,(C')","ED78",
"IN A,(C)","ED78",
"IN A',(%b)","DBb",
"IN A,(%b)","DBb",
"IN A',%b","DBb",
"IN A,%b","DBb",
"IN B',(C')","ED40",
"IN B,(C)","ED40",
"IN C',(C')","ED48",
"IN C,(C)","ED48",
"IN D',(C')","ED50",
"IN D,(C)","ED50",
"IN E',(C')","ED58",
"IN E,(C)","ED58",
"IN F',(C')","ED70",
"IN F,(C)","ED70",
"IN H',(C')","ED60",
"IN H,(C)","ED60",
"IN L',(C')","ED68",
"IN L,(C)","ED68",
"IN (C')","ED70",
"IN (C)","ED70",
"INC A'","3C",
"INC A","3C",
"INC B'","04",
"INC B","04",
"INC BC'","03",
"INC BC","03",
"INC C'","0C",
"INC C","0C",
"INC D'","14",
"INC D","14",
"INC DE'","13",
"INC DE","13",
"INC E'","1C",
"INC E","1C",
"INC H'","24",
"INC H","24",
"INC HL'","23",
"INC HL","23",
"INC (HL')","34",
"INC (HL)","34",
"INC IX","DD23",
"INC IXH","DD24",
"INC HX","DD24",
"INC IXL","DD2C",
"INC LX","DD2C",
"INC (IX+%s)","DD34s",
"INC IY","FD23",
"INC IYH","FD24",
"INC HY","FD24",
"INC IYL","FD2C",
"INC LY","FD2C",
"INC (IY+%s)","FD34s",
"INC L'","2C",
"INC L","2C",
"INC SP","33",
"INDR","EDBA",
"IND","EDAA",
"INIR","EDB2",
"INI","EDA2",
"JP (C')","ED98",
"JP (C)","ED98",
"JP (HL')","E9",
"JP (HL)","E9",
"JP (IX)","DDE9",
"JP (IY)","FDE9",
"JP HL'","E9",
"JP HL","E9",
"JP IX","DDE9",
"JP IY","FDE9",
"JP LSS,%w","DAw",
"JP LST,%w","DAw",
"JP NEG,%w","FAw",
"JP GTE,%w","D2w",
"JP GEQ,%w","D2w",
"JP NEQ,%w","C2w",
"JP POS,%w","F2w",
"JP EQU,%w","CAw",
"JP C,%w","DAw",
"JP M,%w","FAw",
"JP NC,%w","D2w",
"JP NZ,%w","C2w",
"JP PE,%w","EAw",
"JP PO,%w","E2w",
"JP P,%w","F2w",
"JP Z,%w","CAw",
"JP %w","C3w",
"LD A',A'","7F",
"LD A,A","7F",
"LD A',B'","78",
"LD A',B","78",
"LD A,B'","78",
"LD A,B","78",
"LD A',(BC')","0A",
"LD A',(BC)","0A",
"LD A,(BC')","0A",
"LD A,(BC)","0A",
"LD A',C'","79",
"LD A',C","79",
"LD A,C'","79",
"LD A,C","79",
"LD A',D'","7A",
"LD A',D","7A",
"LD A,D'","7A",
"LD A,D","7A",
"LD A',(DE')","1A",
"LD A',(DE)","1A",
"LD A,(DE')","1A",
"LD A,(DE)","1A",
"LD A',E'","7B",
"LD A',E","7B",
"LD A,E'","7B",
"LD A,E","7B",
"LD A',H'","7C",
"LD A',H","7C",
"LD A,H'","7C",
"LD A,H","7C",
"LD A',(HL')","7E",
"LD A',(HL)","7E",
"LD A,(HL')","7E",
"LD A,(HL)","7E",
"LD A',I","ED57",
"LD A,I","ED57",
"LD A',IXH","DD7C",
"LD A',HX","DD7C",
"LD A,IXH","DD7C",
"LD A,HX","DD7C",
"LD A',IXL","DD7D",
"LD A',LX","DD7D",
"LD A,IXL","DD7D",
"LD A,LX","DD7D",
"LD A',(IX+%s)","DD7Es",
"LD A,(IX+%s)","DD7Es",
"LD A',IYH","FD7C",
"LD A',HY","FD7C",
"LD A,IYH","FD7C",
"LD A,HY","FD7C",
"LD A',IYL","FD7D",
"LD A',LY","FD7D",
"LD A,IYL","FD7D",
"LD A,LY","FD7D",
"LD A',(IY+%s)","FD7Es",
"LD A,(IY+%s)","FD7Es",
"LD A',L'","7D",
"LD A',L","7D",
"LD A,L'","7D",
"LD A,L","7D",
"LD A',R","ED5F",
"LD A,R","ED5F",
"LD A',(%w)","3Aw",
"LD A,(%w)","3Aw",
"LD A',%b","3Eb",
"LD A,%b","3Eb",
"LD B',A'","47",
"LD B',A","47",
"LD B,A'","47",
"LD B,A","47",
"LD B',B'","40",
"LD B,B","40",
"LD B',C'","41",
"LD B,C","41",
"LD BC',(%w)","ED4Bw",
"LD BC,(%w)","ED4Bw",
"LD BC',%w","01w",
"LD BC,%w","01w",
"LD (BC'),A'","02",
"LD (BC'),A","02",
"LD (BC),A'","02",
"LD (BC),A","02",
"LD B',D'","42",
"LD B,D","42",
"LD B',E'","43",
"LD B,E","43",
"LD B',H'","44",
"LD B,H","44",
"LD B',(HL')","46",
"LD B,(HL)","46",
"LD B',IXH","DD44",
"LD B',HX","DD44",
"LD B,IXH","DD44",
"LD B,HX","DD44",
"LD B',IXL","DD45",
"LD B',LX","DD45",
"LD B,IXL","DD45",
"LD B,LX","DD45",
"LD B',(IX+%s)","DD46s",
"LD B,(IX+%s)","DD46s",
"LD B',IYH","FD44",
"LD B',HY","FD44",
"LD B,IYH","FD44",
"LD B,HY","FD44",
"LD B',IYL","FD45",
"LD B',LY","FD45",
"LD B,IYL","FD45",
"LD B,LY","FD45",
"LD B',(IY+%s)","FD46s",
"LD B,(IY+%s)","FD46s",
"LD B',L'","45",
"LD B,L","45",
"LD B',%b","06b",
"LD B,%b","06b",
"LD C',A'","4F",
"LD C',A","4F",
"LD C,A'","4F",
"LD C,A","4F",
"LD C',B'","48",
"LD C,B","48",
"LD C',C'","49",
"LD C,C","49",
"LD C',D'","4A",
"LD C,D","4A",
"LD C',E'","4B",
"LD C,E","4B",
"LD C',H'","4C",
"LD C,H","4C",
"LD C',(HL')","4E",
"LD C,(HL)","4E",
"LD C',IXH","DD4C",
"LD C',HX","DD4C",
"LD C,IXH","DD4C",
"LD C,HX","DD4C",
"LD C',IXL","DD4D",
"LD C',LX","DD4D",
"LD C,IXL","DD4D",
"LD C,LX","DD4D",
"LD C',(IX+%s)","DD4Es",
"LD C,(IX+%s)","DD4Es",
"LD C',IYH","FD4C",
"LD C',HY","FD4C",
"LD C,IYH","FD4C",
"LD C,HY","FD4C",
"LD C',IYL","FD4D",
"LD C',LY","FD4D",
"LD C,IYL","FD4D",
"LD C,LY","FD4D",
"LD C',(IY+%s)","FD4Es",
"LD C,(IY+%s)","FD4Es",
"LD C',L'","4D",
"LD C,L","4D",
"LD C',%b","0Eb",
"LD C,%b","0Eb",
"LD D',A'","57",
"LD D',A","57",
"LD D,A'","57",
"LD D,A","57",
"LD D',B'","50",
"LD D,B","50",
"LD D',C'","51",
"LD D,C","51",
"LD D',D'","52",
"LD D,D","52",
"LD D',E'","53",
"LD D,E","53",
"LD DE',(%w)","ED5Bw",
"LD DE,(%w)","ED5Bw",
"LD DE',%w","11w",
"LD DE,%w","11w",
"LD (DE'),A'","12",
"LD (DE'),A","12",
"LD (DE),A'","12",
"LD (DE),A","12",
"LD D',H'","54",
"LD D,H","54",
"LD D',(HL')","56",
"LD D,(HL)","56",
"LD D',IXH","DD54",
"LD D',HX","DD54",
"LD D,IXH","DD54",
"LD D,HX","DD54",
"LD D',IXL","DD55",
"LD D',LX","DD55",
"LD D,IXL","DD55",
"LD D,LX","DD55",
"LD D',(IX+%s)","DD56s",
"LD D,(IX+%s)","DD56s",
"LD D',IYH","FD54",
"LD D',HY","FD54",
"LD D,IYH","FD54",
"LD D,HY","FD54",
"LD D',IYL","FD55",
"LD D',LY","FD55",
"LD D,IYL","FD55",
"LD D,LY","FD55",
"LD D',(IY+%s)","FD56s",
"LD D,(IY+%s)","FD56s",
"LD D',L'","55",
"LD D,L","55",
"LD D',%b","16b",
"LD D,%b","16b",
"LD E',A'","5F",
"LD E',A","5F",
"LD E,A'","5F",
"LD E,A","5F",
"LD E',B'","58",
"LD E,B","58",
"LD E',C'","59",
"LD E,C","59",
"LD E',D'","5A",
"LD E,D","5A",
"LD E',E'","5B",
"LD E,E","5B",
"LD E',H'","5C",
"LD E,H","5C",
"LD E',(HL')","5E",
"LD E,(HL)","5E",
"LD E',IXH","DD5C",
"LD E',HX","DD5C",
"LD E,IXH","DD5C",
"LD E,HX","DD5C",
"LD E',IXL","DD5D",
"LD E',LX","DD5D",
"LD E,IXL","DD5D",
"LD E,LX","DD5D",
"LD E',(IX+%s)","DD5Es",
"LD E,(IX+%s)","DD5Es",
"LD E',IYH","FD5C",
"LD E',HY","FD5C",
"LD E,IYH","FD5C",
"LD E,HY","FD5C",
"LD E',IYL","FD5D",
"LD E',LY","FD5D",
"LD E,IYL","FD5D",
"LD E,LY","FD5D",
"LD E',(IY+%s)","FD5Es",
"LD E,(IY+%s)","FD5Es",
"LD E',L'","5D",
"LD E,L","5D",
"LD E',%b","1Eb",
"LD E,%b","1Eb",
"LD H',A'","67",
"LD H',A","67",
"LD H,A'","67",
"LD H,A","67",
"LD H',B'","60",
"LD H,B","60",
"LD H',C'","61",
"LD H,C","61",
"LD H',D'","62",
"LD H,D","62",
"LD H',E'","63",
"LD H,E","63",
"LD H',H'","64",
"LD H,H","64",
"LD H',(HL')","66",
"LD H,(HL)","66",
"LD H',(IX+%s)","DD66s",
"LD H,(IX+%s)","DD66s",
"LD H',(IY+%s)","FD66s",
"LD H,(IY+%s)","FD66s",
"LD H',L'","65",
"LD H,L","65",
"LD H',%b","26b",
"LD H,%b","26b",
"LD HL',(%w)","2Aw",
"LD HL,(%w)","2Aw",
"LD HL',%w","21w",
"LD HL,%w","21w",
"LD (HL'),A'","77",
"LD (HL'),A","77",
"LD (HL),A'","77",
"LD (HL),A","77",
"LD (HL'),B'","70",
"LD (HL),B","70",
"LD (HL'),C'","71",
"LD (HL),C","71",
"LD (HL'),D'","72",
"LD (HL),D","72",
"LD (HL'),E'","73",
"LD (HL),E","73",
"LD (HL'),H'","74",
"LD (HL),H","74",
"LD (HL'),L'","75",
"LD (HL),L","75",
"LD (HL'),%b","36b",
"LD (HL),%b","36b",
"LD L',A'","6F",
"LD L',A","6F",
"LD L,A'","6F",
"LD L,A","6F",
"LD L',B'","68",
"LD L,B","68",
"LD L',C'","69",
"LD L,C","69",
"LD L',D'","6A",
"LD L,D","6A",
"LD L',E'","6B",
"LD L,E","6B",
"LD L',H'","6C",
"LD L,H","6C",
"LD L',(HL')","6E",
"LD L,(HL)","6E",
"LD L',(IX+%s)","DD6Es",
"LD L,(IX+%s)","DD6Es",
"LD L',(IY+%s)","FD6Es",
"LD L,(IY+%s)","FD6Es",
"LD L',L'","6D",
"LD L,L","6D",
"LD L',%b","2Eb",
"LD L,%b","2Eb",
"LD R,A'","ED4F",
"LD R,A","ED4F",
"LD SP,HL'","F9",
"LD SP,HL","F9",
"LD SP,IX","DDF9",
"LD SP,IY","FDF9",
"LD SP,(%w)","ED7Bw",
"LD SP,%w","31w",
"LD I,A'","ED47",
"LD I,A","ED47",
"LD IX,(%w)","DD2Aw",
"LD IX,%w","DD21w",
"LD IXH,A'","DD67",
"LD IXH,A","DD67",
"LD IXH,B'","DD60",
"LD IXH,B","DD60",
"LD IXH,C'","DD61",
"LD IXH,C","DD61",
"LD IXH,D'","DD62",
"LD IXH,D","DD62",
"LD IXH,E'","DD63",
"LD IXH,E","DD63",
"LD IXH,IXH","DD64",
"LD IXH,IXL","DD65",
"LD IXH,%b","DD26b",
"LD IXL,A'","DD6F",
"LD IXL,A","DD6F",
"LD IXL,B'","DD68",
"LD IXL,B","DD68",
"LD IXL,C'","DD69",
"LD IXL,C","DD69",
"LD IXL,D'","DD6A",
"LD IXL,D","DD6A",
"LD IXL,E'","DD6B",
"LD IXL,E","DD6B",
"LD IXL,IXH","DD6C",
"LD IXL,IXL","DD6D",
"LD IXL,%b","DD2Eb",
"LD HX,A'","DD67",
"LD HX,A","DD67",
"LD HX,B'","DD60",
"LD HX,B","DD60",
"LD HX,C'","DD61",
"LD HX,C","DD61",
"LD HX,D'","DD62",
"LD HX,D","DD62",
"LD HX,E'","DD63",
"LD HX,E","DD63",
"LD HX,HX","DD64",
"LD HX,LX","DD65",
"LD HX,%b","DD26b",
"LD LX,A'","DD6F",
"LD LX,A","DD6F",
"LD LX,B'","DD68",
"LD LX,B","DD68",
"LD LX,C'","DD69",
"LD LX,C","DD69",
"LD LX,D'","DD6A",
"LD LX,D","DD6A",
"LD LX,E'","DD6B",
"LD LX,E","DD6B",
"LD LX,HX","DD6C",
"LD LX,LX","DD6D",
"LD LX,%b","DD2Eb",
"LD (IX+%s),A'","DD77s",
"LD (IX+%s),A","DD77s",
"LD (IX+%s),B'","DD70s",
"LD (IX+%s),B","DD70s",
"LD (IX+%s),C'","DD71s",
"LD (IX+%s),C","DD71s",
"LD (IX+%s),D'","DD72s",
"LD (IX+%s),D","DD72s",
"LD (IX+%s),E'","DD73s",
"LD (IX+%s),E","DD73s",
"LD (IX+%s),H'","DD74s",
"LD (IX+%s),H","DD74s",
"LD (IX+%s),L'","DD75s",
"LD (IX+%s),L","DD75s",
"LD (IX+%s),%b","DD36sb",
"LD IY,(%w)","FD2Aw",
"LD IY,%w","FD21w",
"LD IYH,A'","FD67",
"LD IYH,A","FD67",
"LD IYH,B'","FD60",
"LD IYH,B","FD60",
"LD IYH,C'","FD61",
"LD IYH,C","FD61",
"LD IYH,D'","FD62",
"LD IYH,D","FD62",
"LD IYH,E'","FD63",
"LD IYH,E","FD63",
"LD IYH,IYH","FD64",
"LD IYH,IYL","FD65",
"LD IYH,%b","FD26b",
"LD IYL,A'","FD6F",
"LD IYL,A","FD6F",
"LD IYL,B'","FD68",
"LD IYL,B","FD68",
"LD IYL,C'","FD69",
"LD IYL,C","FD69",
"LD IYL,D'","FD6A",
"LD IYL,D","FD6A",
"LD IYL,E'","FD6B",
"LD IYL,E","FD6B",
"LD IYL,IYH","FD6C",
"LD IYL,IYL","FD6D",
"LD IYL,%b","FD2Eb",
"LD HY,A'","FD67",
"LD HY,A","FD67",
"LD HY,B'","FD60",
"LD HY,B","FD60",
"LD HY,C'","FD61",
"LD HY,C","FD61",
"LD HY,D'","FD62",
"LD HY,D","FD62",
"LD HY,E'","FD63",
"LD HY,E","FD63",
"LD HY,HY","FD64",
"LD HY,LY","FD65",
"LD HY,%b","FD26b",
"LD LY,A'","FD6F",
"LD LY,A","FD6F",
"LD LY,B'","FD68",
"LD LY,B","FD68",
"LD LY,C'","FD69",
"LD LY,C","FD69",
"LD LY,D'","FD6A",
"LD LY,D","FD6A",
"LD LY,E'","FD6B",
"LD LY,E","FD6B",
"LD LY,HY","FD6C",
"LD LY,LY","FD6D",
"LD LY,%b","FD2Eb",
"LD (IY+%s),A'","FD77s",
"LD (IY+%s),A","FD77s",
"LD (IY+%s),B'","FD70s",
"LD (IY+%s),B","FD70s",
"LD (IY+%s),C'","FD71s",
"LD (IY+%s),C","FD71s",
"LD (IY+%s),D'","FD72s",
"LD (IY+%s),D","FD72s",
"LD (IY+%s),E'","FD73s",
"LD (IY+%s),E","FD73s",
"LD (IY+%s),H'","FD74s",
"LD (IY+%s),H","FD74s",
"LD (IY+%s),L'","FD75s",
"LD (IY+%s),L","FD75s",
"LD (IY+%s),%b","FD36sb",
"LD (%w),A'","32w",
"LD (%w),A","32w",
"LD (%w),BC'","ED43w",
"LD (%w),BC","ED43w",
"LD (%w),DE'","ED53w",
"LD (%w),DE","ED53w",
"LD (%w),HL'","22w",
"LD (%w),HL","22w",
"LD (%w),SP","ED73w",
"LD (%w),IY","FD22w",
"LD (%w),IX","DD22w",
"LD A',RES 0,(IX+%s)","DDCBs87",
"LD A,RES 0,(IX+%s)","DDCBs87",
"LD A',RES 0,(IY+%s)","FDCBs87",
"LD A,RES 0,(IY+%s)","FDCBs87",
"LD A',RES 1,(IX+%s)","DDCBs8F",
"LD A,RES 1,(IX+%s)","DDCBs8F",
"LD A',RES 1,(IY+%s)","FDCBs8F",
"LD A,RES 1,(IY+%s)","FDCBs8F",
"LD A',RES 2,(IX+%s)","DDCBs97",
"LD A,RES 2,(IX+%s)","DDCBs97",
"LD A',RES 2,(IY+%s)","FDCBs97",
"LD A,RES 2,(IY+%s)","FDCBs97",
"LD A',RES 3,(IX+%s)","DDCBs9F",
"LD A,RES 3,(IX+%s)","DDCBs9F",
"LD A',RES 3,(IY+%s)","FDCBs9F",
"LD A,RES 3,(IY+%s)","FDCBs9F",
"LD A',RES 4,(IX+%s)","DDCBsA7",
"LD A,RES 4,(IX+%s)","DDCBsA7",
"LD A',RES 4,(IY+%s)","FDCBsA7",
"LD A,RES 4,(IY+%s)","FDCBsA7",
"LD A',RES 5,(IX+%s)","DDCBsAF",
"LD A,RES 5,(IX+%s)","DDCBsAF",
"LD A',RES 5,(IY+%s)","FDCBsAF",
"LD A,RES 5,(IY+%s)","FDCBsAF",
"LD A',RES 6,(IX+%s)","DDCBsB7",
"LD A,RES 6,(IX+%s)","DDCBsB7",
"LD A',RES 6,(IY+%s)","FDCBsB7",
"LD A,RES 6,(IY+%s)","FDCBsB7",
"LD A',RES 7,(IX+%s)","DDCBsBF",
"LD A,RES 7,(IX+%s)","DDCBsBF",
"LD A',RES 7,(IY+%s)","FDCBsBF",
"LD A,RES 7,(IY+%s)","FDCBsBF",
"LD A',RLC (IX+%s)","DDCBs07",
"LD A,RLC (IX+%s)","DDCBs07",
"LD A',RLC (IY+%s)","FDCBs07",
"LD A,RLC (IY+%s)","FDCBs07",
"LD A',RL (IX+%s)","DDCBs17",
"LD A,RL (IX+%s)","DDCBs17",
"LD A',RL (IY+%s)","FDCBs17",
"LD A,RL (IY+%s)","FDCBs17",
"LD A',RRC (IX+%s)","DDCBs0F",
"LD A,RRC (IX+%s)","DDCBs0F",
"LD A',RRC (IY+%s)","FDCBs0F",
"LD A,RRC (IY+%s)","FDCBs0F",
"LD A',RR (IX+%s)","DDCBs1F",
"LD A,RR (IX+%s)","DDCBs1F",
"LD A',RR (IY+%s)","FDCBs1F",
"LD A,RR (IY+%s)","FDCBs1F",
"LD A',SET 0,(IX+%s)","DDCBsC7",
"LD A,SET 0,(IX+%s)","DDCBsC7",
"LD A',SET 0,(IY+%s)","FDCBsC7",
"LD A,SET 0,(IY+%s)","FDCBsC7",
"LD A',SET 1,(IX+%s)","DDCBsCF",
"LD A,SET 1,(IX+%s)","DDCBsCF",
"LD A',SET 1,(IY+%s)","FDCBsCF",
"LD A,SET 1,(IY+%s)","FDCBsCF",
"LD A',SET 2,(IX+%s)","DDCBsD7",
"LD A,SET 2,(IX+%s)","DDCBsD7",
"LD A',SET 2,(IY+%s)","FDCBsD7",
"LD A,SET 2,(IY+%s)","FDCBsD7",
"LD A',SET 3,(IX+%s)","DDCBsDF",
"LD A,SET 3,(IX+%s)","DDCBsDF",
"LD A',SET 3,(IY+%s)","FDCBsDF",
"LD A,SET 3,(IY+%s)","FDCBsDF",
"LD A',SET 4,(IX+%s)","DDCBsE7",
"LD A,SET 4,(IX+%s)","DDCBsE7",
"LD A',SET 4,(IY+%s)","FDCBsE7",
"LD A,SET 4,(IY+%s)","FDCBsE7",
"LD A',SET 5,(IX+%s)","DDCBsEF",
"LD A,SET 5,(IX+%s)","DDCBsEF",
"LD A',SET 5,(IY+%s)","FDCBsEF",
"LD A,SET 5,(IY+%s)","FDCBsEF",
"LD A',SET 6,(IX+%s)","DDCBsF7",
"LD A,SET 6,(IX+%s)","DDCBsF7",
"LD A',SET 6,(IY+%s)","FDCBsF7",
"LD A,SET 6,(IY+%s)","FDCBsF7",
"LD A',SET 7,(IX+%s)","DDCBsFF",
"LD A,SET 7,(IX+%s)","DDCBsFF",
"LD A',SET 7,(IY+%s)","FDCBsFF",
"LD A,SET 7,(IY+%s)","FDCBsFF",
"LD A',SLA (IX+%s)","DDCBs27",
"LD A,SLA (IX+%s)","DDCBs27",
"LD A',SLA (IY+%s)","FDCBs27",
"LD A,SLA (IY+%s)","FDCBs27",
"LD A',SLL (IX+%s)","DDCBs37",
"LD A,SLL (IX+%s)","DDCBs37",
"LD A',SLL (IY+%s)","FDCBs37",
"LD A,SLL (IY+%s)","FDCBs37",
"LD A',SRA (IX+%s)","DDCBs2F",
"LD A,SRA (IX+%s)","DDCBs2F",
"LD A',SRA (IY+%s)","FDCBs2F",
"LD A,SRA (IY+%s)","FDCBs2F",
"LD A',SRL (IX+%s)","DDCBs3F",
"LD A,SRL (IX+%s)","DDCBs3F",
"LD A',SRL (IY+%s)","FDCBs3F",
"LD A,SRL (IY+%s)","FDCBs3F",
"LD B',RES 0,(IX+%s)","DDCBs80",
"LD B,RES 0,(IX+%s)","DDCBs80",
"LD B',RES 0,(IY+%s)","FDCBs80",
"LD B,RES 0,(IY+%s)","FDCBs80",
"LD B',RES 1,(IX+%s)","DDCBs88",
"LD B,RES 1,(IX+%s)","DDCBs88",
"LD B',RES 1,(IY+%s)","FDCBs88",
"LD B,RES 1,(IY+%s)","FDCBs88",
"LD B',RES 2,(IX+%s)","DDCBs90",
"LD B,RES 2,(IX+%s)","DDCBs90",
"LD B',RES 2,(IY+%s)","FDCBs90",
"LD B,RES 2,(IY+%s)","FDCBs90",
"LD B',RES 3,(IX+%s)","DDCBs98",
"LD B,RES 3,(IX+%s)","DDCBs98",
"LD B',RES 3,(IY+%s)","FDCBs98",
"LD B,RES 3,(IY+%s)","FDCBs98",
"LD B',RES 4,(IX+%s)","DDCBsA0",
"LD B,RES 4,(IX+%s)","DDCBsA0",
"LD B',RES 4,(IY+%s)","FDCBsA0",
"LD B,RES 4,(IY+%s)","FDCBsA0",
"LD B',RES 5,(IX+%s)","DDCBsA8",
"LD B,RES 5,(IX+%s)","DDCBsA8",
"LD B',RES 5,(IY+%s)","FDCBsA8",
"LD B,RES 5,(IY+%s)","FDCBsA8",
"LD B',RES 6,(IX+%s)","DDCBsB0",
"LD B,RES 6,(IX+%s)","DDCBsB0",
"LD B',RES 6,(IY+%s)","FDCBsB0",
"LD B,RES 6,(IY+%s)","FDCBsB0",
"LD B',RES 7,(IX+%s)","DDCBsB8",
"LD B,RES 7,(IX+%s)","DDCBsB8",
"LD B',RES 7,(IY+%s)","FDCBsB8",
"LD B,RES 7,(IY+%s)","FDCBsB8",
"LD B',RLC (IX+%s)","DDCBs00",
"LD B,RLC (IX+%s)","DDCBs00",
"LD B',RLC (IY+%s)","FDCBs00",
"LD B,RLC (IY+%s)","FDCBs00",
"LD B',RL (IX+%s)","DDCBs10",
"LD B,RL (IX+%s)","DDCBs10",
"LD B',RL (IY+%s)","FDCBs10",
"LD B,RL (IY+%s)","FDCBs10",
"LD B',RRC (IX+%s)","DDCBs08",
"LD B,RRC (IX+%s)","DDCBs08",
"LD B',RRC (IY+%s)","FDCBs08",
"LD B,RRC (IY+%s)","FDCBs08",
"LD B',RR (IX+%s)","DDCBs18",
"LD B,RR (IX+%s)","DDCBs18",
"LD B',RR (IY+%s)","FDCBs18",
"LD B,RR (IY+%s)","FDCBs18",
"LD B',SET 0,(IX+%s)","DDCBsC0",
"LD B,SET 0,(IX+%s)","DDCBsC0",
"LD B',SET 0,(IY+%s)","FDCBsC0",
"LD B,SET 0,(IY+%s)","FDCBsC0",
"LD B',SET 1,(IX+%s)","DDCBsC8",
"LD B,SET 1,(IX+%s)","DDCBsC8",
"LD B',SET 1,(IY+%s)","FDCBsC8",
"LD B,SET 1,(IY+%s)","FDCBsC8",
"LD B',SET 2,(IX+%s)","DDCBsD0",
"LD B,SET 2,(IX+%s)","DDCBsD0",
"LD B',SET 2,(IY+%s)","FDCBsD0",
"LD B,SET 2,(IY+%s)","FDCBsD0",
"LD B',SET 3,(IX+%s)","DDCBsD8",
"LD B,SET 3,(IX+%s)","DDCBsD8",
"LD B',SET 3,(IY+%s)","FDCBsD8",
"LD B,SET 3,(IY+%s)","FDCBsD8",
"LD B',SET 4,(IX+%s)","DDCBsE0",
"LD B,SET 4,(IX+%s)","DDCBsE0",
"LD B',SET 4,(IY+%s)","FDCBsE0",
"LD B,SET 4,(IY+%s)","FDCBsE0",
"LD B',SET 5,(IX+%s)","DDCBsE8",
"LD B,SET 5,(IX+%s)","DDCBsE8",
"LD B',SET 5,(IY+%s)","FDCBsE8",
"LD B,SET 5,(IY+%s)","FDCBsE8",
"LD B',SET 6,(IX+%s)","DDCBsF0",
"LD B,SET 6,(IX+%s)","DDCBsF0",
"LD B',SET 6,(IY+%s)","FDCBsF0",
"LD B,SET 6,(IY+%s)","FDCBsF0",
"LD B',SET 7,(IX+%s)","DDCBsF8",
"LD B,SET 7,(IX+%s)","DDCBsF8",
"LD B',SET 7,(IY+%s)","FDCBsF8",
"LD B,SET 7,(IY+%s)","FDCBsF8",
"LD B',SLA (IX+%s)","DDCBs20",
"LD B,SLA (IX+%s)","DDCBs20",
"LD B',SLA (IY+%s)","FDCBs20",
"LD B,SLA (IY+%s)","FDCBs20",
"LD B',SLL (IX+%s)","DDCBs30",
"LD B,SLL (IX+%s)","DDCBs30",
"LD B',SLL (IY+%s)","FDCBs30",
"LD B,SLL (IY+%s)","FDCBs30",
"LD B',SRA (IX+%s)","DDCBs28",
"LD B,SRA (IX+%s)","DDCBs28",
"LD B',SRA (IY+%s)","FDCBs28",
"LD B,SRA (IY+%s)","FDCBs28",
"LD B',SRL (IX+%s)","DDCBs38",
"LD B,SRL (IX+%s)","DDCBs38",
"LD B',SRL (IY+%s)","FDCBs38",
"LD B,SRL (IY+%s)","FDCBs38",
"LD C',RES 0,(IX+%s)","DDCBs81",
"LD C,RES 0,(IX+%s)","DDCBs81",
"LD C',RES 0,(IY+%s)","FDCBs81",
"LD C,RES 0,(IY+%s)","FDCBs81",
"LD C',RES 1,(IX+%s)","DDCBs89",
"LD C,RES 1,(IX+%s)","DDCBs89",
"LD C',RES 1,(IY+%s)","FDCBs89",
"LD C,RES 1,(IY+%s)","FDCBs89",
"LD C',RES 2,(IX+%s)","DDCBs91",
"LD C,RES 2,(IX+%s)","DDCBs91",
"LD C',RES 2,(IY+%s)","FDCBs91",
"LD C,RES 2,(IY+%s)","FDCBs91",
"LD C',RES 3,(IX+%s)","DDCBs99",
"LD C,RES 3,(IX+%s)","DDCBs99",
"LD C',RES 3,(IY+%s)","FDCBs99",
"LD C,RES 3,(IY+%s)","FDCBs99",
"LD C',RES 4,(IX+%s)","DDCBsA1",
"LD C,RES 4,(IX+%s)","DDCBsA1",
"LD C',RES 4,(IY+%s)","FDCBsA1",
"LD C,RES 4,(IY+%s)","FDCBsA1",
"LD C',RES 5,(IX+%s)","DDCBsA9",
"LD C,RES 5,(IX+%s)","DDCBsA9",
"LD C',RES 5,(IY+%s)","FDCBsA9",
"LD C,RES 5,(IY+%s)","FDCBsA9",
"LD C',RES 6,(IX+%s)","DDCBsB1",
"LD C,RES 6,(IX+%s)","DDCBsB1",
"LD C',RES 6,(IY+%s)","FDCBsB1",
"LD C,RES 6,(IY+%s)","FDCBsB1",
"LD C',RES 7,(IX+%s)","DDCBsB9",
"LD C,RES 7,(IX+%s)","DDCBsB9",
"LD C',RES 7,(IY+%s)","FDCBsB9",
"LD C,RES 7,(IY+%s)","FDCBsB9",
"LD C',RLC (IX+%s)","DDCBs01",
"LD C,RLC (IX+%s)","DDCBs01",
"LD C',RLC (IY+%s)","FDCBs01",
"LD C,RLC (IY+%s)","FDCBs01",
"LD C',RL (IX+%s)","DDCBs11",
"LD C,RL (IX+%s)","DDCBs11",
"LD C',RL (IY+%s)","FDCBs11",
"LD C,RL (IY+%s)","FDCBs11",
"LD C',RRC (IX+%s)","DDCBs09",
"LD C,RRC (IX+%s)","DDCBs09",
"LD C',RRC (IY+%s)","FDCBs09",
"LD C,RRC (IY+%s)","FDCBs09",
"LD C',RR (IX+%s)","DDCBs19",
"LD C,RR (IX+%s)","DDCBs19",
"LD C',RR (IY+%s)","FDCBs19",
"LD C,RR (IY+%s)","FDCBs19",
"LD C',SET 0,(IX+%s)","DDCBsC1",
"LD C,SET 0,(IX+%s)","DDCBsC1",
"LD C',SET 0,(IY+%s)","FDCBsC1",
"LD C,SET 0,(IY+%s)","FDCBsC1",
"LD C',SET 1,(IX+%s)","DDCBsC9",
"LD C,SET 1,(IX+%s)","DDCBsC9",
"LD C',SET 1,(IY+%s)","FDCBsC9",
"LD C,SET 1,(IY+%s)","FDCBsC9",
"LD C',SET 2,(IX+%s)","DDCBsD1",
"LD C,SET 2,(IX+%s)","DDCBsD1",
"LD C',SET 2,(IY+%s)","FDCBsD1",
"LD C,SET 2,(IY+%s)","FDCBsD1",
"LD C',SET 3,(IX+%s)","DDCBsD9",
"LD C,SET 3,(IX+%s)","DDCBsD9",
"LD C',SET 3,(IY+%s)","FDCBsD9",
"LD C,SET 3,(IY+%s)","FDCBsD9",
"LD C',SET 4,(IX+%s)","DDCBsE1",
"LD C,SET 4,(IX+%s)","DDCBsE1",
"LD C',SET 4,(IY+%s)","FDCBsE1",
"LD C,SET 4,(IY+%s)","FDCBsE1",
"LD C',SET 5,(IX+%s)","DDCBsE9",
"LD C,SET 5,(IX+%s)","DDCBsE9",
"LD C',SET 5,(IY+%s)","FDCBsE9",
"LD C,SET 5,(IY+%s)","FDCBsE9",
"LD C',SET 6,(IX+%s)","DDCBsF1",
"LD C,SET 6,(IX+%s)","DDCBsF1",
"LD C',SET 6,(IY+%s)","FDCBsF1",
"LD C,SET 6,(IY+%s)","FDCBsF1",
"LD C',SET 7,(IX+%s)","DDCBsF9",
"LD C,SET 7,(IX+%s)","DDCBsF9",
"LD C',SET 7,(IY+%s)","FDCBsF9",
"LD C,SET 7,(IY+%s)","FDCBsF9",
"LD C',SLA (IX+%s)","DDCBs21",
"LD C,SLA (IX+%s)","DDCBs21",
"LD C',SLA (IY+%s)","FDCBs21",
"LD C,SLA (IY+%s)","FDCBs21",
"LD C',SLL (IX+%s)","DDCBs31",
"LD C,SLL (IX+%s)","DDCBs31",
"LD C',SLL (IY+%s)","FDCBs31",
"LD C,SLL (IY+%s)","FDCBs31",
"LD C',SRA (IX+%s)","DDCBs29",
"LD C,SRA (IX+%s)","DDCBs29",
"LD C',SRA (IY+%s)","FDCBs29",
"LD C,SRA (IY+%s)","FDCBs29",
"LD C',SRL (IX+%s)","DDCBs39",
"LD C,SRL (IX+%s)","DDCBs39",
"LD C',SRL (IY+%s)","FDCBs39",
"LD C,SRL (IY+%s)","FDCBs39",
"LD D',RES 0,(IX+%s)","DDCBs82",
"LD D,RES 0,(IX+%s)","DDCBs82",
"LD D',RES 0,(IY+%s)","FDCBs82",
"LD D,RES 0,(IY+%s)","FDCBs82",
"LD D',RES 1,(IX+%s)","DDCBs8A",
"LD D,RES 1,(IX+%s)","DDCBs8A",
"LD D',RES 1,(IY+%s)","FDCBs8A",
"LD D,RES 1,(IY+%s)","FDCBs8A",
"LD D',RES 2,(IX+%s)","DDCBs92",
"LD D,RES 2,(IX+%s)","DDCBs92",
"LD D',RES 2,(IY+%s)","FDCBs92",
"LD D,RES 2,(IY+%s)","FDCBs92",
"LD D',RES 3,(IX+%s)","DDCBs9A",
"LD D,RES 3,(IX+%s)","DDCBs9A",
"LD D',RES 3,(IY+%s)","FDCBs9A",
"LD D,RES 3,(IY+%s)","FDCBs9A",
"LD D',RES 4,(IX+%s)","DDCBsA2",
"LD D,RES 4,(IX+%s)","DDCBsA2",
"LD D',RES 4,(IY+%s)","FDCBsA2",
"LD D,RES 4,(IY+%s)","FDCBsA2",
"LD D',RES 5,(IX+%s)","DDCBsAA",
"LD D,RES 5,(IX+%s)","DDCBsAA",
"LD D',RES 5,(IY+%s)","FDCBsAA",
"LD D,RES 5,(IY+%s)","FDCBsAA",
"LD D',RES 6,(IX+%s)","DDCBsB2",
"LD D,RES 6,(IX+%s)","DDCBsB2",
"LD D',RES 6,(IY+%s)","FDCBsB2",
"LD D,RES 6,(IY+%s)","FDCBsB2",
"LD D',RES 7,(IX+%s)","DDCBsBA",
"LD D,RES 7,(IX+%s)","DDCBsBA",
"LD D',RES 7,(IY+%s)","FDCBsBA",
"LD D,RES 7,(IY+%s)","FDCBsBA",
"LD D',RLC (IX+%s)","DDCBs02",
"LD D,RLC (IX+%s)","DDCBs02",
"LD D',RLC (IY+%s)","FDCBs02",
"LD D,RLC (IY+%s)","FDCBs02",
"LD D',RL (IX+%s)","DDCBs12",
"LD D,RL (IX+%s)","DDCBs12",
"LD D',RL (IY+%s)","FDCBs12",
"LD D,RL (IY+%s)","FDCBs12",
"LD D',RRC (IX+%s)","DDCBs0A",
"LD D,RRC (IX+%s)","DDCBs0A",
"LD D',RRC (IY+%s)","FDCBs0A",
"LD D,RRC (IY+%s)","FDCBs0A",
"LD D',RR (IX+%s)","DDCBs1A",
"LD D,RR (IX+%s)","DDCBs1A",
"LD D',RR (IY+%s)","FDCBs1A",
"LD D,RR (IY+%s)","FDCBs1A",
"LD D',SET 0,(IX+%s)","DDCBsC2",
"LD D,SET 0,(IX+%s)","DDCBsC2",
"LD D',SET 0,(IY+%s)","FDCBsC2",
"LD D,SET 0,(IY+%s)","FDCBsC2",
"LD D',SET 1,(IX+%s)","DDCBsCA",
"LD D,SET 1,(IX+%s)","DDCBsCA",
"LD D',SET 1,(IY+%s)","FDCBsCA",
"LD D,SET 1,(IY+%s)","FDCBsCA",
"LD D',SET 2,(IX+%s)","DDCBsD2",
"LD D,SET 2,(IX+%s)","DDCBsD2",
"LD D',SET 2,(IY+%s)","FDCBsD2",
"LD D,SET 2,(IY+%s)","FDCBsD2",
"LD D',SET 3,(IX+%s)","DDCBsDA",
"LD D,SET 3,(IX+%s)","DDCBsDA",
"LD D',SET 3,(IY+%s)","FDCBsDA",
"LD D,SET 3,(IY+%s)","FDCBsDA",
"LD D',SET 4,(IX+%s)","DDCBsE2",
"LD D,SET 4,(IX+%s)","DDCBsE2",
"LD D',SET 4,(IY+%s)","FDCBsE2",
"LD D,SET 4,(IY+%s)","FDCBsE2",
"LD D',SET 5,(IX+%s)","DDCBsEA",
"LD D,SET 5,(IX+%s)","DDCBsEA",
"LD D',SET 5,(IY+%s)","FDCBsEA",
"LD D,SET 5,(IY+%s)","FDCBsEA",
"LD D',SET 6,(IX+%s)","DDCBsF2",
"LD D,SET 6,(IX+%s)","DDCBsF2",
"LD D',SET 6,(IY+%s)","FDCBsF2",
"LD D,SET 6,(IY+%s)","FDCBsF2",
"LD D',SET 7,(IX+%s)","DDCBsFA",
"LD D,SET 7,(IX+%s)","DDCBsFA",
"LD D',SET 7,(IY+%s)","FDCBsFA",
"LD D,SET 7,(IY+%s)","FDCBsFA",
"LD D',SLA (IX+%s)","DDCBs22",
"LD D,SLA (IX+%s)","DDCBs22",
"LD D',SLA (IY+%s)","FDCBs22",
"LD D,SLA (IY+%s)","FDCBs22",
"LD D',SLL (IX+%s)","DDCBs32",
"LD D,SLL (IX+%s)","DDCBs32",
"LD D',SLL (IY+%s)","FDCBs32",
"LD D,SLL (IY+%s)","FDCBs32",
"LD D',SRA (IX+%s)","DDCBs2A",
"LD D,SRA (IX+%s)","DDCBs2A",
"LD D',SRA (IY+%s)","FDCBs2A",
"LD D,SRA (IY+%s)","FDCBs2A",
"LD D',SRL (IX+%s)","DDCBs3A",
"LD D,SRL (IX+%s)","DDCBs3A",
"LD D',SRL (IY+%s)","FDCBs3A",
"LD D,SRL (IY+%s)","FDCBs3A",
"LD E',RES 0,(IX+%s)","DDCBs83",
"LD E,RES 0,(IX+%s)","DDCBs83",
"LD E',RES 0,(IY+%s)","FDCBs83",
"LD E,RES 0,(IY+%s)","FDCBs83",
"LD E',RES 1,(IX+%s)","DDCBs8B",
"LD E,RES 1,(IX+%s)","DDCBs8B",
"LD E',RES 1,(IY+%s)","FDCBs8B",
"LD E,RES 1,(IY+%s)","FDCBs8B",
"LD E',RES 2,(IX+%s)","DDCBs93",
"LD E,RES 2,(IX+%s)","DDCBs93",
"LD E',RES 2,(IY+%s)","FDCBs93",
"LD E,RES 2,(IY+%s)","FDCBs93",
"LD E',RES 3,(IX+%s)","DDCBs9B",
"LD E,RES 3,(IX+%s)","DDCBs9B",
"LD E',RES 3,(IY+%s)","FDCBs9B",
"LD E,RES 3,(IY+%s)","FDCBs9B",
"LD E',RES 4,(IX+%s)","DDCBsA3",
"LD E,RES 4,(IX+%s)","DDCBsA3",
"LD E',RES 4,(IY+%s)","FDCBsA3",
"LD E,RES 4,(IY+%s)","FDCBsA3",
"LD E',RES 5,(IX+%s)","DDCBsAB",
"LD E,RES 5,(IX+%s)","DDCBsAB",
"LD E',RES 5,(IY+%s)","FDCBsAB",
"LD E,RES 5,(IY+%s)","FDCBsAB",
"LD E',RES 6,(IX+%s)","DDCBsB3",
"LD E,RES 6,(IX+%s)","DDCBsB3",
"LD E',RES 6,(IY+%s)","FDCBsB3",
"LD E,RES 6,(IY+%s)","FDCBsB3",
"LD E',RES 7,(IX+%s)","DDCBsBB",
"LD E,RES 7,(IX+%s)","DDCBsBB",
"LD E',RES 7,(IY+%s)","FDCBsBB",
"LD E,RES 7,(IY+%s)","FDCBsBB",
"LD E',RLC (IX+%s)","DDCBs03",
"LD E,RLC (IX+%s)","DDCBs03",
"LD E',RLC (IY+%s)","FDCBs03",
"LD E,RLC (IY+%s)","FDCBs03",
"LD E',RL (IX+%s)","DDCBs13",
"LD E,RL (IX+%s)","DDCBs13",
"LD E',RL (IY+%s)","FDCBs13",
"LD E,RL (IY+%s)","FDCBs13",
"LD E',RRC (IX+%s)","DDCBs0B",
"LD E,RRC (IX+%s)","DDCBs0B",
"LD E',RRC (IY+%s)","FDCBs0B",
"LD E,RRC (IY+%s)","FDCBs0B",
"LD E',RR (IX+%s)","DDCBs1B",
"LD E,RR (IX+%s)","DDCBs1B",
"LD E',RR (IY+%s)","FDCBs1B",
"LD E,RR (IY+%s)","FDCBs1B",
"LD E',SET 0,(IX+%s)","DDCBsC3",
"LD E,SET 0,(IX+%s)","DDCBsC3",
"LD E',SET 0,(IY+%s)","FDCBsC3",
"LD E,SET 0,(IY+%s)","FDCBsC3",
"LD E',SET 1,(IX+%s)","DDCBsCB",
"LD E,SET 1,(IX+%s)","DDCBsCB",
"LD E',SET 1,(IY+%s)","FDCBsCB",
"LD E,SET 1,(IY+%s)","FDCBsCB",
"LD E',SET 2,(IX+%s)","DDCBsD3",
"LD E,SET 2,(IX+%s)","DDCBsD3",
"LD E',SET 2,(IY+%s)","FDCBsD3",
"LD E,SET 2,(IY+%s)","FDCBsD3",
"LD E',SET 3,(IX+%s)","DDCBsDB",
"LD E,SET 3,(IX+%s)","DDCBsDB",
"LD E',SET 3,(IY+%s)","FDCBsDB",
"LD E,SET 3,(IY+%s)","FDCBsDB",
"LD E',SET 4,(IX+%s)","DDCBsE3",
"LD E,SET 4,(IX+%s)","DDCBsE3",
"LD E',SET 4,(IY+%s)","FDCBsE3",
"LD E,SET 4,(IY+%s)","FDCBsE3",
"LD E',SET 5,(IX+%s)","DDCBsEB",
"LD E,SET 5,(IX+%s)","DDCBsEB",
"LD E',SET 5,(IY+%s)","FDCBsEB",
"LD E,SET 5,(IY+%s)","FDCBsEB",
"LD E',SET 6,(IX+%s)","DDCBsF3",
"LD E,SET 6,(IX+%s)","DDCBsF3",
"LD E',SET 6,(IY+%s)","FDCBsF3",
"LD E,SET 6,(IY+%s)","FDCBsF3",
"LD E',SET 7,(IX+%s)","DDCBsFB",
"LD E,SET 7,(IX+%s)","DDCBsFB",
"LD E',SET 7,(IY+%s)","FDCBsFB",
"LD E,SET 7,(IY+%s)","FDCBsFB",
"LD E',SLA (IX+%s)","DDCBs23",
"LD E,SLA (IX+%s)","DDCBs23",
"LD E',SLA (IY+%s)","FDCBs23",
"LD E,SLA (IY+%s)","FDCBs23",
"LD E',SLL (IX+%s)","DDCBs33",
"LD E,SLL (IX+%s)","DDCBs33",
"LD E',SLL (IY+%s)","FDCBs33",
"LD E,SLL (IY+%s)","FDCBs33",
"LD E',SRA (IX+%s)","DDCBs2B",
"LD E,SRA (IX+%s)","DDCBs2B",
"LD E',SRA (IY+%s)","FDCBs2B",
"LD E,SRA (IY+%s)","FDCBs2B",
"LD E',SRL (IX+%s)","DDCBs3B",
"LD E,SRL (IX+%s)","DDCBs3B",
"LD E',SRL (IY+%s)","FDCBs3B",
"LD E,SRL (IY+%s)","FDCBs3B",
"LD H',RES 0,(IX+%s)","DDCBs84",
"LD H,RES 0,(IX+%s)","DDCBs84",
"LD H',RES 0,(IY+%s)","FDCBs84",
"LD H,RES 0,(IY+%s)","FDCBs84",
"LD H',RES 1,(IX+%s)","DDCBs8C",
"LD H,RES 1,(IX+%s)","DDCBs8C",
"LD H',RES 1,(IY+%s)","FDCBs8C",
"LD H,RES 1,(IY+%s)","FDCBs8C",
"LD H',RES 2,(IX+%s)","DDCBs94",
"LD H,RES 2,(IX+%s)","DDCBs94",
"LD H',RES 2,(IY+%s)","FDCBs94",
"LD H,RES 2,(IY+%s)","FDCBs94",
"LD H',RES 3,(IX+%s)","DDCBs9C",
"LD H,RES 3,(IX+%s)","DDCBs9C",
"LD H',RES 3,(IY+%s)","FDCBs9C",
"LD H,RES 3,(IY+%s)","FDCBs9C",
"LD H',RES 4,(IX+%s)","DDCBsA4",
"LD H,RES 4,(IX+%s)","DDCBsA4",
"LD H',RES 4,(IY+%s)","FDCBsA4",
"LD H,RES 4,(IY+%s)","FDCBsA4",
"LD H',RES 5,(IX+%s)","DDCBsAC",
"LD H,RES 5,(IX+%s)","DDCBsAC",
"LD H',RES 5,(IY+%s)","FDCBsAC",
"LD H,RES 5,(IY+%s)","FDCBsAC",
"LD H',RES 6,(IX+%s)","DDCBsB4",
"LD H,RES 6,(IX+%s)","DDCBsB4",
"LD H',RES 6,(IY+%s)","FDCBsB4",
"LD H,RES 6,(IY+%s)","FDCBsB4",
"LD H',RES 7,(IX+%s)","DDCBsBC",
"LD H,RES 7,(IX+%s)","DDCBsBC",
"LD H',RES 7,(IY+%s)","FDCBsBC",
"LD H,RES 7,(IY+%s)","FDCBsBC",
"LD H',RLC (IX+%s)","DDCBs04",
"LD H,RLC (IX+%s)","DDCBs04",
"LD H',RLC (IY+%s)","FDCBs04",
"LD H,RLC (IY+%s)","FDCBs04",
"LD H',RL (IX+%s)","DDCBs14",
"LD H,RL (IX+%s)","DDCBs14",
"LD H',RL (IY+%s)","FDCBs14",
"LD H,RL (IY+%s)","FDCBs14",
"LD H',RRC (IX+%s)","DDCBs0C",
"LD H,RRC (IX+%s)","DDCBs0C",
"LD H',RRC (IY+%s)","FDCBs0C",
"LD H,RRC (IY+%s)","FDCBs0C",
"LD H',RR (IX+%s)","DDCBs1C",
"LD H,RR (IX+%s)","DDCBs1C",
"LD H',RR (IY+%s)","FDCBs1C",
"LD H,RR (IY+%s)","FDCBs1C",
"LD H',SET 0,(IX+%s)","DDCBsC4",
"LD H,SET 0,(IX+%s)","DDCBsC4",
"LD H',SET 0,(IY+%s)","FDCBsC4",
"LD H,SET 0,(IY+%s)","FDCBsC4",
"LD H',SET 1,(IX+%s)","DDCBsCC",
"LD H,SET 1,(IX+%s)","DDCBsCC",
"LD H',SET 1,(IY+%s)","FDCBsCC",
"LD H,SET 1,(IY+%s)","FDCBsCC",
"LD H',SET 2,(IX+%s)","DDCBsD4",
"LD H,SET 2,(IX+%s)","DDCBsD4",
"LD H',SET 2,(IY+%s)","FDCBsD4",
"LD H,SET 2,(IY+%s)","FDCBsD4",
"LD H',SET 3,(IX+%s)","DDCBsDC",
"LD H,SET 3,(IX+%s)","DDCBsDC",
"LD H',SET 3,(IY+%s)","FDCBsDC",
"LD H,SET 3,(IY+%s)","FDCBsDC",
"LD H',SET 4,(IX+%s)","DDCBsE4",
"LD H,SET 4,(IX+%s)","DDCBsE4",
"LD H',SET 4,(IY+%s)","FDCBsE4",
"LD H,SET 4,(IY+%s)","FDCBsE4",
"LD H',SET 5,(IX+%s)","DDCBsEC",
"LD H,SET 5,(IX+%s)","DDCBsEC",
"LD H',SET 5,(IY+%s)","FDCBsEC",
"LD H,SET 5,(IY+%s)","FDCBsEC",
"LD H',SET 6,(IX+%s)","DDCBsF4",
"LD H,SET 6,(IX+%s)","DDCBsF4",
"LD H',SET 6,(IY+%s)","FDCBsF4",
"LD H,SET 6,(IY+%s)","FDCBsF4",
"LD H',SET 7,(IX+%s)","DDCBsFC",
"LD H,SET 7,(IX+%s)","DDCBsFC",
"LD H',SET 7,(IY+%s)","FDCBsFC",
"LD H,SET 7,(IY+%s)","FDCBsFC",
"LD H',SLA (IX+%s)","DDCBs24",
"LD H,SLA (IX+%s)","DDCBs24",
"LD H',SLA (IY+%s)","FDCBs24",
"LD H,SLA (IY+%s)","FDCBs24",
"LD H',SLL (IX+%s)","DDCBs34",
"LD H,SLL (IX+%s)","DDCBs34",
"LD H',SLL (IY+%s)","FDCBs34",
"LD H,SLL (IY+%s)","FDCBs34",
"LD H',SRA (IX+%s)","DDCBs2C",
"LD H,SRA (IX+%s)","DDCBs2C",
"LD H',SRA (IY+%s)","FDCBs2C",
"LD H,SRA (IY+%s)","FDCBs2C",
"LD H',SRL (IX+%s)","DDCBs3C",
"LD H,SRL (IX+%s)","DDCBs3C",
"LD H',SRL (IY+%s)","FDCBs3C",
"LD H,SRL (IY+%s)","FDCBs3C",
"LD L',RES 0,(IX+%s)","DDCBs85",
"LD L,RES 0,(IX+%s)","DDCBs85",
"LD L',RES 0,(IY+%s)","FDCBs85",
"LD L,RES 0,(IY+%s)","FDCBs85",
"LD L',RES 1,(IX+%s)","DDCBs8D",
"LD L,RES 1,(IX+%s)","DDCBs8D",
"LD L',RES 1,(IY+%s)","FDCBs8D",
"LD L,RES 1,(IY+%s)","FDCBs8D",
"LD L',RES 2,(IX+%s)","DDCBs95",
"LD L,RES 2,(IX+%s)","DDCBs95",
"LD L',RES 2,(IY+%s)","FDCBs95",
"LD L,RES 2,(IY+%s)","FDCBs95",
"LD L',RES 3,(IX+%s)","DDCBs9D",
"LD L,RES 3,(IX+%s)","DDCBs9D",
"LD L',RES 3,(IY+%s)","FDCBs9D",
"LD L,RES 3,(IY+%s)","FDCBs9D",
"LD L',RES 4,(IX+%s)","DDCBsA5",
"LD L,RES 4,(IX+%s)","DDCBsA5",
"LD L',RES 4,(IY+%s)","FDCBsA5",
"LD L,RES 4,(IY+%s)","FDCBsA5",
"LD L',RES 5,(IX+%s)","DDCBsAD",
"LD L,RES 5,(IX+%s)","DDCBsAD",
"LD L',RES 5,(IY+%s)","FDCBsAD",
"LD L,RES 5,(IY+%s)","FDCBsAD",
"LD L',RES 6,(IX+%s)","DDCBsB5",
"LD L,RES 6,(IX+%s)","DDCBsB5",
"LD L',RES 6,(IY+%s)","FDCBsB5",
"LD L,RES 6,(IY+%s)","FDCBsB5",
"LD L',RES 7,(IX+%s)","DDCBsBD",
"LD L,RES 7,(IX+%s)","DDCBsBD",
"LD L',RES 7,(IY+%s)","FDCBsBD",
"LD L,RES 7,(IY+%s)","FDCBsBD",
"LD L',RLC (IX+%s)","DDCBs05",
"LD L,RLC (IX+%s)","DDCBs05",
"LD L',RLC (IY+%s)","FDCBs05",
"LD L,RLC (IY+%s)","FDCBs05",
"LD L',RL (IX+%s)","DDCBs15",
"LD L,RL (IX+%s)","DDCBs15",
"LD L',RL (IY+%s)","FDCBs15",
"LD L,RL (IY+%s)","FDCBs15",
"LD L',RRC (IX+%s)","DDCBs0D",
"LD L,RRC (IX+%s)","DDCBs0D",
"LD L',RRC (IY+%s)","FDCBs0D",
"LD L,RRC (IY+%s)","FDCBs0D",
"LD L',RR (IX+%s)","DDCBs1D",
"LD L,RR (IX+%s)","DDCBs1D",
"LD L',RR (IY+%s)","FDCBs1D",
"LD L,RR (IY+%s)","FDCBs1D",
"LD L',SET 0,(IX+%s)","DDCBsC5",
"LD L,SET 0,(IX+%s)","DDCBsC5",
"LD L',SET 0,(IY+%s)","FDCBsC5",
"LD L,SET 0,(IY+%s)","FDCBsC5",
"LD L',SET 1,(IX+%s)","DDCBsCD",
"LD L,SET 1,(IX+%s)","DDCBsCD",
"LD L',SET 1,(IY+%s)","FDCBsCD",
"LD L,SET 1,(IY+%s)","FDCBsCD",
"LD L',SET 2,(IX+%s)","DDCBsD5",
"LD L,SET 2,(IX+%s)","DDCBsD5",
"LD L',SET 2,(IY+%s)","FDCBsD5",
"LD L,SET 2,(IY+%s)","FDCBsD5",
"LD L',SET 3,(IX+%s)","DDCBsDD",
"LD L,SET 3,(IX+%s)","DDCBsDD",
"LD L',SET 3,(IY+%s)","FDCBsDD",
"LD L,SET 3,(IY+%s)","FDCBsDD",
"LD L',SET 4,(IX+%s)","DDCBsE5",
"LD L,SET 4,(IX+%s)","DDCBsE5",
"LD L',SET 4,(IY+%s)","FDCBsE5",
"LD L,SET 4,(IY+%s)","FDCBsE5",
"LD L',SET 5,(IX+%s)","DDCBsED",
"LD L,SET 5,(IX+%s)","DDCBsED",
"LD L',SET 5,(IY+%s)","FDCBsED",
"LD L,SET 5,(IY+%s)","FDCBsED",
"LD L',SET 6,(IX+%s)","DDCBsF5",
"LD L,SET 6,(IX+%s)","DDCBsF5",
"LD L',SET 6,(IY+%s)","FDCBsF5",
"LD L,SET 6,(IY+%s)","FDCBsF5",
"LD L',SET 7,(IX+%s)","DDCBsFD",
"LD L,SET 7,(IX+%s)","DDCBsFD",
"LD L',SET 7,(IY+%s)","FDCBsFD",
"LD L,SET 7,(IY+%s)","FDCBsFD",
"LD L',SLA (IX+%s)","DDCBs25",
"LD L,SLA (IX+%s)","DDCBs25",
"LD L',SLA (IY+%s)","FDCBs25",
"LD L,SLA (IY+%s)","FDCBs25",
"LD L',SLL (IX+%s)","DDCBs35",
"LD L,SLL (IX+%s)","DDCBs35",
"LD L',SLL (IY+%s)","FDCBs35",
"LD L,SLL (IY+%s)","FDCBs35",
"LD L',SRA (IX+%s)","DDCBs2D",
"LD L,SRA (IX+%s)","DDCBs2D",
"LD L',SRA (IY+%s)","FDCBs2D",
"LD L,SRA (IY+%s)","FDCBs2D",
"LD L',SRL (IX+%s)","DDCBs3D",
"LD L,SRL (IX+%s)","DDCBs3D",
"LD L',SRL (IY+%s)","FDCBs3D",
"LD L,SRL (IY+%s)","FDCBs3D",
"LD PC,HL'","E9",
"LD PC,HL","E9",
"LD PC,IX","DDE9",
"LD PC,IY","FDE9",
"LDIX","EDA4",
"LDWS","EDA5",
"LDDRX","EDBC",
"LDRX","EDBC",
"LDDR","EDB8",
"LDDX","EDAC",
"LDD","EDA8",
"LDIRX","EDB4",
"LDIR","EDB0",
"LDI","EDA0",
"LDPIRX","EDB7",
"LIRX","EDB4",
"LPRX","EDB7",
"MIRROR A'","ED24",
"MIRROR A","ED24",
"MIRR A'","ED24",
"MIRR A","ED24",
"MUL D',E","ED30",
"MUL D,E'","ED30",
"MUL D',E'","ED30",
"MUL D,E","ED30",
"NEXTREG %b,A'","ED92b",
"NEXTREG %b,A","ED92b",
"NEXTREG %b,%c","ED91bc",
"NREG %b,A'","ED92b",
"NREG %b,A","ED92b",
"NREG %b,%c","ED91bc",
"NEG","ED44",
"NOP","00",
"OR A',A'","B7",
"OR A,A","B7",
"OR A',B'","B0",
"OR A',B","B0",
"OR A,B'","B0",
"OR A,B","B0",
"OR A',C'","B1",
"OR A',C","B1",
"OR A,C'","B1",
"OR A,C","B1",
"OR A',D'","B2",
"OR A',D","B2",
"OR A,D'","B2",
"OR A,D","B2",
"OR A',E'","B3",
"OR A',E","B3",
"OR A,E'","B3",
"OR A,E","B3",
"OR A',H'","B4",
"OR A',H","B4",
"OR A,H'","B4",
"OR A,H","B4",
"OR A',(HL')","B6",
"OR A',(HL)","B6",
"OR A,(HL')","B6",
"OR A,(HL)","B6",
"OR A',IXH","DDB4",
"OR A',HX","DDB4",
"OR A,IXH","DDB4",
"OR A,HX","DDB4",
"OR A',IXL","DDB5",
"OR A',LX","DDB5",
"OR A,IXL","DDB5",
"OR A,LX","DDB5",
"OR A',(IX+%s)","DDB6s",
"OR A,(IX+%s)","DDB6s",
"OR A',IYH","FDB4",
"OR A',HY","FDB4",
"OR A,IYH","FDB4",
"OR A,HY","FDB4",
"OR A',IYL","FDB5",
"OR A',LY","FDB5",
"OR A,IYL","FDB5",
"OR A,LY","FDB5",
"OR A',(IY+%s)","FDB6s",
"OR A,(IY+%s)","FDB6s",
"OR A',L'","B5",
"OR A',L","B5",
"OR A,L'","B5",
"OR A,L","B5",
"OR A',%b","F6b",
"OR A,%b","F6b",
"OR A'","B7",
"OR A","B7",
"OR B'","B0",
"OR B","B0",
"OR C'","B1",
"OR C","B1",
"OR D'","B2",
"OR D","B2",
"OR E'","B3",
"OR E","B3",
"OR H'","B4",
"OR H","B4",
"OR (HL')","B6",
"OR (HL)","B6",
"OR IXH","DDB4",
"OR HX","DDB4",
"OR IXL","DDB5",
"OR LX","DDB5",
"OR (IX+%s)","DDB6s",
"OR IYH","FDB4",
"OR HY","FDB4",
"OR IYL","FDB5",
"OR LY","FDB5",
"OR (IY+%s)","FDB6s",
"OR L'","B5",
"OR L","B5",
"OR %b","F6b",
"OTDR","EDBB",
"OTIR","EDB3",
"OUT (C'),0","ED71",
"OUT (C),0","ED71",
"OUT (C'),A'","ED79",
"OUT (C'),A","ED79",
"OUT (C),A'","ED79",
"OUT (C),A","ED79",
"OUT (C'),B'","ED41",
"OUT (C),B","ED41",
"OUT (C'),C'","ED49",
"OUT (C),C","ED49",
"OUT (C'),D'","ED51",
"OUT (C),D","ED51",
"OUT (C'),E'","ED59",
"OUT (C),E","ED59",
"OUT (C'),H'","ED61",
"OUT (C),H","ED61",
"OUT (C'),L'","ED69",
"OUT (C),L","ED69",
"OUT (%b),A'","D3b",
"OUT (%b),A","D3b",
"OUTD","EDAB",
"OUTI","EDA3",
"OUTINB","ED90",
"OTIB","ED90",
"PIXELDN","ED93",
"PIXELAD","ED94",
"PXDN","ED93",
"PXAD","ED94",
"POP AF'","F1",
"POP AF","F1",
"POP BC'","C1",
"POP BC","C1",
"POP DE'","D1",
"POP DE","D1",
"POP HL'","E1",
"POP HL","E1",
"POP IX","DDE1",
"POP IY","FDE1",
"PUSH AF'","F5",
"PUSH AF","F5",
"PUSH BC'","C5",
"PUSH BC","C5",
"PUSH DE'","D5",
"PUSH DE","D5",
"PUSH HL'","E5",
"PUSH HL","E5",
"PUSH IX","DDE5",
"PUSH IY","FDE5",
"PUSH %w","ED8AW",
"RES 0,A'","CB87",
"RES 0,A","CB87",
"RES 0,B'","CB80",
"RES 0,B","CB80",
"RES 0,C'","CB81",
"RES 0,C","CB81",
"RES 0,D'","CB82",
"RES 0,D","CB82",
"RES 0,E'","CB83",
"RES 0,E","CB83",
"RES 0,H'","CB84",
"RES 0,H","CB84",
"RES 0,(HL')","CB86",
"RES 0,(HL)","CB86",
"RES 0,(IX+%s),A'","DDCBs87",
"RES 0,(IX+%s),A","DDCBs87",
"RES 0,(IX+%s),B'","DDCBs80",
"RES 0,(IX+%s),B","DDCBs80",
"RES 0,(IX+%s),C'","DDCBs81",
"RES 0,(IX+%s),C","DDCBs81",
"RES 0,(IX+%s),D'","DDCBs82",
"RES 0,(IX+%s),D","DDCBs82",
"RES 0,(IX+%s),E'","DDCBs83",
"RES 0,(IX+%s),E","DDCBs83",
"RES 0,(IX+%s),H'","DDCBs84",
"RES 0,(IX+%s),H","DDCBs84",
"RES 0,(IX+%s),L'","DDCBs85",
"RES 0,(IX+%s),L","DDCBs85",
"RES 0,(IX+%s)","DDCBs86",
"RES 0,(IY+%s),A'","FDCBs87",
"RES 0,(IY+%s),A","FDCBs87",
"RES 0,(IY+%s),B'","FDCBs80",
"RES 0,(IY+%s),B","FDCBs80",
"RES 0,(IY+%s),C'","FDCBs81",
"RES 0,(IY+%s),C","FDCBs81",
"RES 0,(IY+%s),D'","FDCBs82",
"RES 0,(IY+%s),D","FDCBs82",
"RES 0,(IY+%s),E'","FDCBs83",
"RES 0,(IY+%s),E","FDCBs83",
"RES 0,(IY+%s),H'","FDCBs84",
"RES 0,(IY+%s),H","FDCBs84",
"RES 0,(IY+%s),L'","FDCBs85",
"RES 0,(IY+%s),L","FDCBs85",
"RES 0,(IY+%s)","FDCBs86",
"RES 0,L'","CB85",
"RES 0,L","CB85",
"RES 1,A'","CB8F",
"RES 1,A","CB8F",
"RES 1,B'","CB88",
"RES 1,B","CB88",
"RES 1,C'","CB89",
"RES 1,C","CB89",
"RES 1,D'","CB8A",
"RES 1,D","CB8A",
"RES 1,E'","CB8B",
"RES 1,E","CB8B",
"RES 1,H'","CB8C",
"RES 1,H","CB8C",
"RES 1,(HL')","CB8E",
"RES 1,(HL)","CB8E",
"RES 1,(IX+%s),A'","DDCBs8F",
"RES 1,(IX+%s),A","DDCBs8F",
"RES 1,(IX+%s),B'","DDCBs88",
"RES 1,(IX+%s),B","DDCBs88",
"RES 1,(IX+%s),C'","DDCBs89",
"RES 1,(IX+%s),C","DDCBs89",
"RES 1,(IX+%s),D'","DDCBs8A",
"RES 1,(IX+%s),D","DDCBs8A",
"RES 1,(IX+%s),E'","DDCBs8B",
"RES 1,(IX+%s),E","DDCBs8B",
"RES 1,(IX+%s),H'","DDCBs8C",
"RES 1,(IX+%s),H","DDCBs8C",
"RES 1,(IX+%s),L'","DDCBs8D",
"RES 1,(IX+%s),L","DDCBs8D",
"RES 1,(IX+%s)","DDCBs8E",
"RES 1,(IY+%s),A'","FDCBs8F",
"RES 1,(IY+%s),A","FDCBs8F",
"RES 1,(IY+%s),B'","FDCBs88",
"RES 1,(IY+%s),B","FDCBs88",
"RES 1,(IY+%s),C'","FDCBs89",
"RES 1,(IY+%s),C","FDCBs89",
"RES 1,(IY+%s),D'","FDCBs8A",
"RES 1,(IY+%s),D","FDCBs8A",
"RES 1,(IY+%s),E'","FDCBs8B",
"RES 1,(IY+%s),E","FDCBs8B",
"RES 1,(IY+%s),H'","FDCBs8C",
"RES 1,(IY+%s),H","FDCBs8C",
"RES 1,(IY+%s),L'","FDCBs8D",
"RES 1,(IY+%s),L","FDCBs8D",
"RES 1,(IY+%s)","FDCBs8E",
"RES 1,L'","CB8D",
"RES 1,L","CB8D",
"RES 2,A'","CB97",
"RES 2,A","CB97",
"RES 2,B'","CB90",
"RES 2,B","CB90",
"RES 2,C'","CB91",
"RES 2,C","CB91",
"RES 2,D'","CB92",
"RES 2,D","CB92",
"RES 2,E'","CB93",
"RES 2,E","CB93",
"RES 2,H'","CB94",
"RES 2,H","CB94",
"RES 2,(HL')","CB96",
"RES 2,(HL)","CB96",
"RES 2,(IX+%s),A'","DDCBs97",
"RES 2,(IX+%s),A","DDCBs97",
"RES 2,(IX+%s),B'","DDCBs90",
"RES 2,(IX+%s),B","DDCBs90",
"RES 2,(IX+%s),C'","DDCBs91",
"RES 2,(IX+%s),C","DDCBs91",
"RES 2,(IX+%s),D'","DDCBs92",
"RES 2,(IX+%s),D","DDCBs92",
"RES 2,(IX+%s),E'","DDCBs93",
"RES 2,(IX+%s),E","DDCBs93",
"RES 2,(IX+%s),H'","DDCBs94",
"RES 2,(IX+%s),H","DDCBs94",
"RES 2,(IX+%s),L'","DDCBs95",
"RES 2,(IX+%s),L","DDCBs95",
"RES 2,(IX+%s)","DDCBs96",
"RES 2,(IY+%s),A'","FDCBs97",
"RES 2,(IY+%s),A","FDCBs97",
"RES 2,(IY+%s),B'","FDCBs90",
"RES 2,(IY+%s),B","FDCBs90",
"RES 2,(IY+%s),C'","FDCBs91",
"RES 2,(IY+%s),C","FDCBs91",
"RES 2,(IY+%s),D'","FDCBs92",
"RES 2,(IY+%s),D","FDCBs92",
"RES 2,(IY+%s),E'","FDCBs93",
"RES 2,(IY+%s),E","FDCBs93",
"RES 2,(IY+%s),H'","FDCBs94",
"RES 2,(IY+%s),H","FDCBs94",
"RES 2,(IY+%s),L'","FDCBs95",
"RES 2,(IY+%s),L","FDCBs95",
"RES 2,(IY+%s)","FDCBs96",
"RES 2,L'","CB95",
"RES 2,L","CB95",
"RES 3,A'","CB9F",
"RES 3,A","CB9F",
"RES 3,B'","CB98",
"RES 3,B","CB98",
"RES 3,C'","CB99",
"RES 3,C","CB99",
"RES 3,D'","CB9A",
"RES 3,D","CB9A",
"RES 3,E'","CB9B",
"RES 3,E","CB9B",
"RES 3,H'","CB9C",
"RES 3,H","CB9C",
"RES 3,(HL')","CB9E",
"RES 3,(HL)","CB9E",
"RES 3,(IX+%s),A'","DDCBs9F",
"RES 3,(IX+%s),A","DDCBs9F",
"RES 3,(IX+%s),B'","DDCBs98",
"RES 3,(IX+%s),B","DDCBs98",
"RES 3,(IX+%s),C'","DDCBs99",
"RES 3,(IX+%s),C","DDCBs99",
"RES 3,(IX+%s),D'","DDCBs9A",
"RES 3,(IX+%s),D","DDCBs9A",
"RES 3,(IX+%s),E'","DDCBs9B",
"RES 3,(IX+%s),E","DDCBs9B",
"RES 3,(IX+%s),H'","DDCBs9C",
"RES 3,(IX+%s),H","DDCBs9C",
"RES 3,(IX+%s),L'","DDCBs9D",
"RES 3,(IX+%s),L","DDCBs9D",
"RES 3,(IX+%s)","DDCBs9E",
"RES 3,(IY+%s),A'","FDCBs9F",
"RES 3,(IY+%s),A","FDCBs9F",
"RES 3,(IY+%s),B'","FDCBs98",
"RES 3,(IY+%s),B","FDCBs98",
"RES 3,(IY+%s),C'","FDCBs99",
"RES 3,(IY+%s),C","FDCBs99",
"RES 3,(IY+%s),D'","FDCBs9A",
"RES 3,(IY+%s),D","FDCBs9A",
"RES 3,(IY+%s),E'","FDCBs9B",
"RES 3,(IY+%s),E","FDCBs9B",
"RES 3,(IY+%s),H'","FDCBs9C",
"RES 3,(IY+%s),H","FDCBs9C",
"RES 3,(IY+%s),L'","FDCBs9D",
"RES 3,(IY+%s),L","FDCBs9D",
"RES 3,(IY+%s)","FDCBs9E",
"RES 3,L'","CB9D",
"RES 3,L","CB9D",
"RES 4,A'","CBA7",
"RES 4,A","CBA7",
"RES 4,B'","CBA0",
"RES 4,B","CBA0",
"RES 4,C'","CBA1",
"RES 4,C","CBA1",
"RES 4,D'","CBA2",
"RES 4,D","CBA2",
"RES 4,E'","CBA3",
"RES 4,E","CBA3",
"RES 4,H'","CBA4",
"RES 4,H","CBA4",
"RES 4,(HL')","CBA6",
"RES 4,(HL)","CBA6",
"RES 4,(IX+%s),A'","DDCBsA7",
"RES 4,(IX+%s),A","DDCBsA7",
"RES 4,(IX+%s),B'","DDCBsA0",
"RES 4,(IX+%s),B","DDCBsA0",
"RES 4,(IX+%s),C'","DDCBsA1",
"RES 4,(IX+%s),C","DDCBsA1",
"RES 4,(IX+%s),D'","DDCBsA2",
"RES 4,(IX+%s),D","DDCBsA2",
"RES 4,(IX+%s),E'","DDCBsA3",
"RES 4,(IX+%s),E","DDCBsA3",
"RES 4,(IX+%s),H'","DDCBsA4",
"RES 4,(IX+%s),H","DDCBsA4",
"RES 4,(IX+%s),L'","DDCBsA5",
"RES 4,(IX+%s),L","DDCBsA5",
"RES 4,(IX+%s)","DDCBsA6",
"RES 4,(IY+%s),A'","FDCBsA7",
"RES 4,(IY+%s),A","FDCBsA7",
"RES 4,(IY+%s),B'","FDCBsA0",
"RES 4,(IY+%s),B","FDCBsA0",
"RES 4,(IY+%s),C'","FDCBsA1",
"RES 4,(IY+%s),C","FDCBsA1",
"RES 4,(IY+%s),D'","FDCBsA2",
"RES 4,(IY+%s),D","FDCBsA2",
"RES 4,(IY+%s),E'","FDCBsA3",
"RES 4,(IY+%s),E","FDCBsA3",
"RES 4,(IY+%s),H'","FDCBsA4",
"RES 4,(IY+%s),H","FDCBsA4",
"RES 4,(IY+%s),L'","FDCBsA5",
"RES 4,(IY+%s),L","FDCBsA5",
"RES 4,(IY+%s)","FDCBsA6",
"RES 4,L'","CBA5",
"RES 4,L","CBA5",
"RES 5,A'","CBAF",
"RES 5,A","CBAF",
"RES 5,B'","CBA8",
"RES 5,B","CBA8",
"RES 5,C'","CBA9",
"RES 5,C","CBA9",
"RES 5,D'","CBAA",
"RES 5,D","CBAA",
"RES 5,E'","CBAB",
"RES 5,E","CBAB",
"RES 5,H'","CBAC",
"RES 5,H","CBAC",
"RES 5,(HL')","CBAE",
"RES 5,(HL)","CBAE",
"RES 5,(IX+%s),A'","DDCBsAF",
"RES 5,(IX+%s),A","DDCBsAF",
"RES 5,(IX+%s),B'","DDCBsA8",
"RES 5,(IX+%s),B","DDCBsA8",
"RES 5,(IX+%s),C'","DDCBsA9",
"RES 5,(IX+%s),C","DDCBsA9",
"RES 5,(IX+%s),D'","DDCBsAA",
"RES 5,(IX+%s),D","DDCBsAA",
"RES 5,(IX+%s),E'","DDCBsAB",
"RES 5,(IX+%s),E","DDCBsAB",
"RES 5,(IX+%s),H'","DDCBsAC",
"RES 5,(IX+%s),H","DDCBsAC",
"RES 5,(IX+%s),L'","DDCBsAD",
"RES 5,(IX+%s),L","DDCBsAD",
"RES 5,(IX+%s)","DDCBsAE",
"RES 5,(IY+%s),A'","FDCBsAF",
"RES 5,(IY+%s),A","FDCBsAF",
"RES 5,(IY+%s),B'","FDCBsA8",
"RES 5,(IY+%s),B","FDCBsA8",
"RES 5,(IY+%s),C'","FDCBsA9",
"RES 5,(IY+%s),C","FDCBsA9",
"RES 5,(IY+%s),D'","FDCBsAA",
"RES 5,(IY+%s),D","FDCBsAA",
"RES 5,(IY+%s),E'","FDCBsAB",
"RES 5,(IY+%s),E","FDCBsAB",
"RES 5,(IY+%s),H'","FDCBsAC",
"RES 5,(IY+%s),H","FDCBsAC",
"RES 5,(IY+%s),L'","FDCBsAD",
"RES 5,(IY+%s),L","FDCBsAD",
"RES 5,(IY+%s)","FDCBsAE",
"RES 5,L'","CBAD",
"RES 5,L","CBAD",
"RES 6,A'","CBB7",
"RES 6,A","CBB7",
"RES 6,B'","CBB0",
"RES 6,B","CBB0",
"RES 6,C'","CBB1",
"RES 6,C","CBB1",
"RES 6,D'","CBB2",
"RES 6,D","CBB2",
"RES 6,E'","CBB3",
"RES 6,E","CBB3",
"RES 6,H'","CBB4",
"RES 6,H","CBB4",
"RES 6,(HL')","CBB6",
"RES 6,(HL)","CBB6",
"RES 6,(IX+%s),A'","DDCBsB7",
"RES 6,(IX+%s),A","DDCBsB7",
"RES 6,(IX+%s),B'","DDCBsB0",
"RES 6,(IX+%s),B","DDCBsB0",
"RES 6,(IX+%s),C'","DDCBsB1",
"RES 6,(IX+%s),C","DDCBsB1",
"RES 6,(IX+%s),D'","DDCBsB2",
"RES 6,(IX+%s),D","DDCBsB2",
"RES 6,(IX+%s),E'","DDCBsB3",
"RES 6,(IX+%s),E","DDCBsB3",
"RES 6,(IX+%s),H'","DDCBsB4",
"RES 6,(IX+%s),H","DDCBsB4",
"RES 6,(IX+%s),L'","DDCBsB5",
"RES 6,(IX+%s),L","DDCBsB5",
"RES 6,(IX+%s)","DDCBsB6",
"RES 6,(IY+%s),A'","FDCBsB7",
"RES 6,(IY+%s),A","FDCBsB7",
"RES 6,(IY+%s),B'","FDCBsB0",
"RES 6,(IY+%s),B","FDCBsB0",
"RES 6,(IY+%s),C'","FDCBsB1",
"RES 6,(IY+%s),C","FDCBsB1",
"RES 6,(IY+%s),D'","FDCBsB2",
"RES 6,(IY+%s),D","FDCBsB2",
"RES 6,(IY+%s),E'","FDCBsB3",
"RES 6,(IY+%s),E","FDCBsB3",
"RES 6,(IY+%s),H'","FDCBsB4",
"RES 6,(IY+%s),H","FDCBsB4",
"RES 6,(IY+%s),L'","FDCBsB5",
"RES 6,(IY+%s),L","FDCBsB5",
"RES 6,(IY+%s)","FDCBsB6",
"RES 6,L'","CBB5",
"RES 6,L","CBB5",
"RES 7,A'","CBBF",
"RES 7,A","CBBF",
"RES 7,B'","CBB8",
"RES 7,B","CBB8",
"RES 7,C'","CBB9",
"RES 7,C","CBB9",
"RES 7,D'","CBBA",
"RES 7,D","CBBA",
"RES 7,E'","CBBB",
"RES 7,E","CBBB",
"RES 7,H'","CBBC",
"RES 7,H","CBBC",
"RES 7,(HL')","CBBE",
"RES 7,(HL)","CBBE",
"RES 7,(IX+%s),A'","DDCBsBF",
"RES 7,(IX+%s),A","DDCBsBF",
"RES 7,(IX+%s),B'","DDCBsB8",
"RES 7,(IX+%s),B","DDCBsB8",
"RES 7,(IX+%s),C'","DDCBsB9",
"RES 7,(IX+%s),C","DDCBsB9",
"RES 7,(IX+%s),D'","DDCBsBA",
"RES 7,(IX+%s),D","DDCBsBA",
"RES 7,(IX+%s),E'","DDCBsBB",
"RES 7,(IX+%s),E","DDCBsBB",
"RES 7,(IX+%s),H'","DDCBsBC",
"RES 7,(IX+%s),H","DDCBsBC",
"RES 7,(IX+%s),L'","DDCBsBD",
"RES 7,(IX+%s),L","DDCBsBD",
"RES 7,(IX+%s)","DDCBsBE",
"RES 7,(IY+%s),A'","FDCBsBF",
"RES 7,(IY+%s),A","FDCBsBF",
"RES 7,(IY+%s),B'","FDCBsB8",
"RES 7,(IY+%s),B","FDCBsB8",
"RES 7,(IY+%s),C'","FDCBsB9",
"RES 7,(IY+%s),C","FDCBsB9",
"RES 7,(IY+%s),D'","FDCBsBA",
"RES 7,(IY+%s),D","FDCBsBA",
"RES 7,(IY+%s),E'","FDCBsBB",
"RES 7,(IY+%s),E","FDCBsBB",
"RES 7,(IY+%s),H'","FDCBsBC",
"RES 7,(IY+%s),H","FDCBsBC",
"RES 7,(IY+%s),L'","FDCBsBD",
"RES 7,(IY+%s),L","FDCBsBD",
"RES 7,(IY+%s)","FDCBsBE",
"RES 7,L'","CBBD",
"RES 7,L","CBBD",
"RET LSS","D8",
"RET LST","D8",
"RET NEG","F8",
"RET GTE","D0",
"RET GEQ","D0",
"RET NEQ","C0",
"RET POS","F0",
"RET EQU","C8",
"RET C","D8",
"RET M","F8",
"RET NC","D0",
"RET NZ","C0",
"RET P","F0",
"RET PE","E8",
"RET PO","E0",
"RET Z","C8",
"RET","C9",
"RETI","ED4D",
"RETN","ED45",
"RL A'","CB17",
"RL A","CB17",
"RL B'","CB10",
"RL B","CB10",
"RL C'","CB11",
"RL C","CB11",
"RL D'","CB12",
"RL D","CB12",
"RL E'","CB13",
"RL E","CB13",
"RL H'","CB14",
"RL H","CB14",
"RL (HL')","CB16",
"RL (HL)","CB16",
"RL (IX+%s),A'","DDCBs17",
"RL (IX+%s),A","DDCBs17",
"RL (IX+%s),B'","DDCBs10",
"RL (IX+%s),B","DDCBs10",
"RL (IX+%s),C'","DDCBs11",
"RL (IX+%s),C","DDCBs11",
"RL (IX+%s),D'","DDCBs12",
"RL (IX+%s),D","DDCBs12",
"RL (IX+%s),E'","DDCBs13",
"RL (IX+%s),E","DDCBs13",
"RL (IX+%s),H'","DDCBs14",
"RL (IX+%s),H","DDCBs14",
"RL (IX+%s),L'","DDCBs15",
"RL (IX+%s),L","DDCBs15",
"RL (IX+%s)","DDCBs16",
"RL (IY+%s),A'","FDCBs17",
"RL (IY+%s),A","FDCBs17",
"RL (IY+%s),B'","FDCBs10",
"RL (IY+%s),B","FDCBs10",
"RL (IY+%s),C'","FDCBs11",
"RL (IY+%s),C","FDCBs11",
"RL (IY+%s),D'","FDCBs12",
"RL (IY+%s),D","FDCBs12",
"RL (IY+%s),E'","FDCBs13",
"RL (IY+%s),E","FDCBs13",
"RL (IY+%s),H'","FDCBs14",
"RL (IY+%s),H","FDCBs14",
"RL (IY+%s),L'","FDCBs15",
"RL (IY+%s),L","FDCBs15",
"RL (IY+%s)","FDCBs16",
"RL L'","CB15",
"RL L","CB15",
"RLC A'","CB07",
"RLC A","CB07",
"RLC B'","CB00",
"RLC B","CB00",
"RLC C'","CB01",
"RLC C","CB01",
"RLC D'","CB02",
"RLC D","CB02",
"RLC E'","CB03",
"RLC E","CB03",
"RLC H'","CB04",
"RLC H","CB04",
"RLC (HL')","CB06",
"RLC (HL)","CB06",
"RLC (IX+%s),A'","DDCBs07",
"RLC (IX+%s),A","DDCBs07",
"RLC (IX+%s),B'","DDCBs00",
"RLC (IX+%s),B","DDCBs00",
"RLC (IX+%s),C'","DDCBs01",
"RLC (IX+%s),C","DDCBs01",
"RLC (IX+%s),D'","DDCBs02",
"RLC (IX+%s),D","DDCBs02",
"RLC (IX+%s),E'","DDCBs03",
"RLC (IX+%s),E","DDCBs03",
"RLC (IX+%s),H'","DDCBs04",
"RLC (IX+%s),H","DDCBs04",
"RLC (IX+%s),L'","DDCBs05",
"RLC (IX+%s),L","DDCBs05",
"RLC (IX+%s)","DDCBs06",
"RLC (IY+%s),A'","FDCBs07",
"RLC (IY+%s),A","FDCBs07",
"RLC (IY+%s),B'","FDCBs00",
"RLC (IY+%s),B","FDCBs00",
"RLC (IY+%s),C'","FDCBs01",
"RLC (IY+%s),C","FDCBs01",
"RLC (IY+%s),D'","FDCBs02",
"RLC (IY+%s),D","FDCBs02",
"RLC (IY+%s),E'","FDCBs03",
"RLC (IY+%s),E","FDCBs03",
"RLC (IY+%s),H'","FDCBs04",
"RLC (IY+%s),H","FDCBs04",
"RLC (IY+%s),L'","FDCBs05",
"RLC (IY+%s),L","FDCBs05",
"RLC (IY+%s)","FDCBs06",
"RLC L'","CB05",
"RLC L","CB05",
"RLCA","07",
"RLA","17",
"RLD","ED6F",
"RR A'","CB1F",
"RR A","CB1F",
"RR B'","CB18",
"RR B","CB18",
"RR C'","CB19",
"RR C","CB19",
"RR D'","CB1A",
"RR D","CB1A",
"RR E'","CB1B",
"RR E","CB1B",
"RR H'","CB1C",
"RR H","CB1C",
"RR (HL')","CB1E",
"RR (HL)","CB1E",
"RR (IX+%s),A'","DDCBs1F",
"RR (IX+%s),A","DDCBs1F",
"RR (IX+%s),B'","DDCBs18",
"RR (IX+%s),B","DDCBs18",
"RR (IX+%s),C'","DDCBs19",
"RR (IX+%s),C","DDCBs19",
"RR (IX+%s),D'","DDCBs1A",
"RR (IX+%s),D","DDCBs1A",
"RR (IX+%s),E'","DDCBs1B",
"RR (IX+%s),E","DDCBs1B",
"RR (IX+%s),H'","DDCBs1C",
"RR (IX+%s),H","DDCBs1C",
"RR (IX+%s),L'","DDCBs1D",
"RR (IX+%s),L","DDCBs1D",
"RR (IX+%s)","DDCBs1E",
"RR (IY+%s),A'","FDCBs1F",
"RR (IY+%s),A","FDCBs1F",
"RR (IY+%s),B'","FDCBs18",
"RR (IY+%s),B","FDCBs18",
"RR (IY+%s),C'","FDCBs19",
"RR (IY+%s),C","FDCBs19",
"RR (IY+%s),D'","FDCBs1A",
"RR (IY+%s),D","FDCBs1A",
"RR (IY+%s),E'","FDCBs1B",
"RR (IY+%s),E","FDCBs1B",
"RR (IY+%s),H'","FDCBs1C",
"RR (IY+%s),H","FDCBs1C",
"RR (IY+%s),L'","FDCBs1D",
"RR (IY+%s),L","FDCBs1D",
"RR (IY+%s)","FDCBs1E",
"RR L'","CB1D",
"RR L","CB1D",
"RRA","1F",
"RRC A'","CB0F",
"RRC A","CB0F",
"RRC B'","CB08",
"RRC B","CB08",
"RRC C'","CB09",
"RRC C","CB09",
"RRC D'","CB0A",
"RRC D","CB0A",
"RRC E'","CB0B",
"RRC E","CB0B",
"RRC H'","CB0C",
"RRC H","CB0C",
"RRC (HL')","CB0E",
"RRC (HL)","CB0E",
"RRC (IX+%s),A'","DDCBs0F",
"RRC (IX+%s),A","DDCBs0F",
"RRC (IX+%s),B'","DDCBs08",
"RRC (IX+%s),B","DDCBs08",
"RRC (IX+%s),C'","DDCBs09",
"RRC (IX+%s),C","DDCBs09",
"RRC (IX+%s),D'","DDCBs0A",
"RRC (IX+%s),D","DDCBs0A",
"RRC (IX+%s),E'","DDCBs0B",
"RRC (IX+%s),E","DDCBs0B",
"RRC (IX+%s),H'","DDCBs0C",
"RRC (IX+%s),H","DDCBs0C",
"RRC (IX+%s),L'","DDCBs0D",
"RRC (IX+%s),L","DDCBs0D",
"RRC (IX+%s)","DDCBs0E",
"RRC (IY+%s),A'","FDCBs0F",
"RRC (IY+%s),A","FDCBs0F",
"RRC (IY+%s),B'","FDCBs08",
"RRC (IY+%s),B","FDCBs08",
"RRC (IY+%s),C'","FDCBs09",
"RRC (IY+%s),C","FDCBs09",
"RRC (IY+%s),D'","FDCBs0A",
"RRC (IY+%s),D","FDCBs0A",
"RRC (IY+%s),E'","FDCBs0B",
"RRC (IY+%s),E","FDCBs0B",
"RRC (IY+%s),H'","FDCBs0C",
"RRC (IY+%s),H","FDCBs0C",
"RRC (IY+%s),L'","FDCBs0D",
"RRC (IY+%s),L","FDCBs0D",
"RRC (IY+%s)","FDCBs0E",
"RRC L'","CB0D",
"RRC L","CB0D",
"RRCA","0F",
"RRD","ED67",
"RST 0","C7",
"RST 8","CF",
"RST 16","D7",
"RST 24","DF",
"RST 32","E7",
"RST 40","EF",
"RST 48","F7",
"RST 56","FF",
"RST","C7",
"SBC A',A'","9F",
"SBC A,A","9F",
"SBC A',B'","98",
"SBC A',B","98",
"SBC A,B'","98",
"SBC A,B","98",
"SBC A',C'","99",
"SBC A',C","99",
"SBC A,C'","99",
"SBC A,C","99",
"SBC A',D'","9A",
"SBC A',D","9A",
"SBC A,D'","9A",
"SBC A,D","9A",
"SBC A',E'","9B",
"SBC A',E","9B",
"SBC A,E'","9B",
"SBC A,E","9B",
"SBC A',H'","9C",
"SBC A',H","9C",
"SBC A,H'","9C",
"SBC A,H","9C",
"SBC A',(HL')","9E",
"SBC A',(HL)","9E",
"SBC A,(HL')","9E",
"SBC A,(HL)","9E",
"SBC A',IXH","DD9C",
"SBC A',HX","DD9C",
"SBC A,IXH","DD9C",
"SBC A,HX","DD9C",
"SBC A',IXL","DD9D",
"SBC A',LX","DD9D",
"SBC A,IXL","DD9D",
"SBC A,LX","DD9D",
"SBC A',(IX+%s)","DD9Es",
"SBC A,(IX+%s)","DD9Es",
"SBC A',IYH","FD9C",
"SBC A',HY","FD9C",
"SBC A,IYH","FD9C",
"SBC A,HY","FD9C",
"SBC A',IYL","FD9D",
"SBC A',LY","FD9D",
"SBC A,IYL","FD9D",
"SBC A,LY","FD9D",
"SBC A',(IY+%s)","FD9Es",
"SBC A,(IY+%s)","FD9Es",
"SBC A',L'","9D",
"SBC A',L","9D",
"SBC A,L'","9D",
"SBC A,L","9D",
"SBC A',%b","DEb",
"SBC A,%b","DEb",
"SBC HL',BC'","ED42",
"SBC HL,BC","ED42",
"SBC HL',DE'","ED52",
"SBC HL,DE","ED52",
"SBC HL',HL'","ED62",
"SBC HL,HL","ED62",
"SBC HL',SP","ED72",
"SBC HL,SP","ED72",
"SBC A'","9F",
"SBC A","9F",
"SBC B'","98",
"SBC B","98",
"SBC C'","99",
"SBC C","99",
"SBC D'","9A",
"SBC D","9A",
"SBC E'","9B",
"SBC E","9B",
"SBC H'","9C",
"SBC H","9C",
"SBC (HL')","9E",
"SBC (HL)","9E",
"SBC IXH","DD9C",
"SBC HX","DD9C",
"SBC IXL","DD9D",
"SBC LX","DD9D",
"SBC (IX+%s)","DD9Es",
"SBC IYH","FD9C",
"SBC HY","FD9C",
"SBC IYL","FD9D",
"SBC LY","FD9D",
"SBC (IY+%s)","FD9Es",
"SBC L'","9D",
"SBC L","9D",
"SBC %b","DEb",
"SCF","37",
"SETAE","ED95",
"SET 0,A'","CBC7",
"SET 0,A","CBC7",
"SET 0,B'","CBC0",
"SET 0,B","CBC0",
"SET 0,C'","CBC1",
"SET 0,C","CBC1",
"SET 0,D'","CBC2",
"SET 0,D","CBC2",
"SET 0,E'","CBC3",
"SET 0,E","CBC3",
"SET 0,H'","CBC4",
"SET 0,H","CBC4",
"SET 0,(HL')","CBC6",
"SET 0,(HL)","CBC6",
"SET 0,(IX+%s),A'","DDCBsC7",
"SET 0,(IX+%s),A","DDCBsC7",
"SET 0,(IX+%s),B'","DDCBsC0",
"SET 0,(IX+%s),B","DDCBsC0",
"SET 0,(IX+%s),C'","DDCBsC1",
"SET 0,(IX+%s),C","DDCBsC1",
"SET 0,(IX+%s),D'","DDCBsC2",
"SET 0,(IX+%s),D","DDCBsC2",
"SET 0,(IX+%s),E'","DDCBsC3",
"SET 0,(IX+%s),E","DDCBsC3",
"SET 0,(IX+%s),H'","DDCBsC4",
"SET 0,(IX+%s),H","DDCBsC4",
"SET 0,(IX+%s),L'","DDCBsC5",
"SET 0,(IX+%s),L","DDCBsC5",
"SET 0,(IX+%s)","DDCBsC6",
"SET 0,(IY+%s),A'","FDCBsC7",
"SET 0,(IY+%s),A","FDCBsC7",
"SET 0,(IY+%s),B'","FDCBsC0",
"SET 0,(IY+%s),B","FDCBsC0",
"SET 0,(IY+%s),C'","FDCBsC1",
"SET 0,(IY+%s),C","FDCBsC1",
"SET 0,(IY+%s),D'","FDCBsC2",
"SET 0,(IY+%s),D","FDCBsC2",
"SET 0,(IY+%s),E'","FDCBsC3",
"SET 0,(IY+%s),E","FDCBsC3",
"SET 0,(IY+%s),H'","FDCBsC4",
"SET 0,(IY+%s),H","FDCBsC4",
"SET 0,(IY+%s),L'","FDCBsC5",
"SET 0,(IY+%s),L","FDCBsC5",
"SET 0,(IY+%s)","FDCBsC6",
"SET 0,L'","CBC5",
"SET 0,L","CBC5",
"SET 1,A'","CBCF",
"SET 1,A","CBCF",
"SET 1,B'","CBC8",
"SET 1,B","CBC8",
"SET 1,C'","CBC9",
"SET 1,C","CBC9",
"SET 1,D'","CBCA",
"SET 1,D","CBCA",
"SET 1,E'","CBCB",
"SET 1,E","CBCB",
"SET 1,H'","CBCC",
"SET 1,H","CBCC",
"SET 1,(HL')","CBCE",
"SET 1,(HL)","CBCE",
"SET 1,(IX+%s),A'","DDCBsCF",
"SET 1,(IX+%s),A","DDCBsCF",
"SET 1,(IX+%s),B'","DDCBsC8",
"SET 1,(IX+%s),B","DDCBsC8",
"SET 1,(IX+%s),C'","DDCBsC9",
"SET 1,(IX+%s),C","DDCBsC9",
"SET 1,(IX+%s),D'","DDCBsCA",
"SET 1,(IX+%s),D","DDCBsCA",
"SET 1,(IX+%s),E'","DDCBsCB",
"SET 1,(IX+%s),E","DDCBsCB",
"SET 1,(IX+%s),H'","DDCBsCC",
"SET 1,(IX+%s),H","DDCBsCC",
"SET 1,(IX+%s),L'","DDCBsCD",
"SET 1,(IX+%s),L","DDCBsCD",
"SET 1,(IX+%s)","DDCBsCE",
"SET 1,(IY+%s),A'","FDCBsCF",
"SET 1,(IY+%s),A","FDCBsCF",
"SET 1,(IY+%s),B'","FDCBsC8",
"SET 1,(IY+%s),B","FDCBsC8",
"SET 1,(IY+%s),C'","FDCBsC9",
"SET 1,(IY+%s),C","FDCBsC9",
"SET 1,(IY+%s),D'","FDCBsCA",
"SET 1,(IY+%s),D","FDCBsCA",
"SET 1,(IY+%s),E'","FDCBsCB",
"SET 1,(IY+%s),E","FDCBsCB",
"SET 1,(IY+%s),H'","FDCBsCC",
"SET 1,(IY+%s),H","FDCBsCC",
"SET 1,(IY+%s),L'","FDCBsCD",
"SET 1,(IY+%s),L","FDCBsCD",
"SET 1,(IY+%s)","FDCBsCE",
"SET 1,L'","CBCD",
"SET 1,L","CBCD",
"SET 2,A'","CBD7",
"SET 2,A","CBD7",
"SET 2,B'","CBD0",
"SET 2,B","CBD0",
"SET 2,C'","CBD1",
"SET 2,C","CBD1",
"SET 2,D'","CBD2",
"SET 2,D","CBD2",
"SET 2,E'","CBD3",
"SET 2,E","CBD3",
"SET 2,H'","CBD4",
"SET 2,H","CBD4",
"SET 2,(HL')","CBD6",
"SET 2,(HL)","CBD6",
"SET 2,(IX+%s),A'","DDCBsD7",
"SET 2,(IX+%s),A","DDCBsD7",
"SET 2,(IX+%s),B'","DDCBsD0",
"SET 2,(IX+%s),B","DDCBsD0",
"SET 2,(IX+%s),C'","DDCBsD1",
"SET 2,(IX+%s),C","DDCBsD1",
"SET 2,(IX+%s),D'","DDCBsD2",
"SET 2,(IX+%s),D","DDCBsD2",
"SET 2,(IX+%s),E'","DDCBsD3",
"SET 2,(IX+%s),E","DDCBsD3",
"SET 2,(IX+%s),H'","DDCBsD4",
"SET 2,(IX+%s),H","DDCBsD4",
"SET 2,(IX+%s),L'","DDCBsD5",
"SET 2,(IX+%s),L","DDCBsD5",
"SET 2,(IX+%s)","DDCBsD6",
"SET 2,(IY+%s),A'","FDCBsD7",
"SET 2,(IY+%s),A","FDCBsD7",
"SET 2,(IY+%s),B'","FDCBsD0",
"SET 2,(IY+%s),B","FDCBsD0",
"SET 2,(IY+%s),C'","FDCBsD1",
"SET 2,(IY+%s),C","FDCBsD1",
"SET 2,(IY+%s),D'","FDCBsD2",
"SET 2,(IY+%s),D","FDCBsD2",
"SET 2,(IY+%s),E'","FDCBsD3",
"SET 2,(IY+%s),E","FDCBsD3",
"SET 2,(IY+%s),H'","FDCBsD4",
"SET 2,(IY+%s),H","FDCBsD4",
"SET 2,(IY+%s),L'","FDCBsD5",
"SET 2,(IY+%s),L","FDCBsD5",
"SET 2,(IY+%s)","FDCBsD6",
"SET 2,L'","CBD5",
"SET 2,L","CBD5",
"SET 3,A'","CBDF",
"SET 3,A","CBDF",
"SET 3,B'","CBD8",
"SET 3,B","CBD8",
"SET 3,C'","CBD9",
"SET 3,C","CBD9",
"SET 3,D'","CBDA",
"SET 3,D","CBDA",
"SET 3,E'","CBDB",
"SET 3,E","CBDB",
"SET 3,H'","CBDC",
"SET 3,H","CBDC",
"SET 3,(HL')","CBDE",
"SET 3,(HL)","CBDE",
"SET 3,(IX+%s),A'","DDCBsDF",
"SET 3,(IX+%s),A","DDCBsDF",
"SET 3,(IX+%s),B'","DDCBsD8",
"SET 3,(IX+%s),B","DDCBsD8",
"SET 3,(IX+%s),C'","DDCBsD9",
"SET 3,(IX+%s),C","DDCBsD9",
"SET 3,(IX+%s),D'","DDCBsDA",
"SET 3,(IX+%s),D","DDCBsDA",
"SET 3,(IX+%s),E'","DDCBsDB",
"SET 3,(IX+%s),E","DDCBsDB",
"SET 3,(IX+%s),H'","DDCBsDC",
"SET 3,(IX+%s),H","DDCBsDC",
"SET 3,(IX+%s),L'","DDCBsDD",
"SET 3,(IX+%s),L","DDCBsDD",
"SET 3,(IX+%s)","DDCBsDE",
"SET 3,(IY+%s),A'","FDCBsDF",
"SET 3,(IY+%s),A","FDCBsDF",
"SET 3,(IY+%s),B'","FDCBsD8",
"SET 3,(IY+%s),B","FDCBsD8",
"SET 3,(IY+%s),C'","FDCBsD9",
"SET 3,(IY+%s),C","FDCBsD9",
"SET 3,(IY+%s),D'","FDCBsDA",
"SET 3,(IY+%s),D","FDCBsDA",
"SET 3,(IY+%s),E'","FDCBsDB",
"SET 3,(IY+%s),E","FDCBsDB",
"SET 3,(IY+%s),H'","FDCBsDC",
"SET 3,(IY+%s),H","FDCBsDC",
"SET 3,(IY+%s),L'","FDCBsDD",
"SET 3,(IY+%s),L","FDCBsDD",
"SET 3,(IY+%s)","FDCBsDE",
"SET 3,L'","CBDD",
"SET 3,L","CBDD",
"SET 4,A'","CBE7",
"SET 4,A","CBE7",
"SET 4,B'","CBE0",
"SET 4,B","CBE0",
"SET 4,C'","CBE1",
"SET 4,C","CBE1",
"SET 4,D'","CBE2",
"SET 4,D","CBE2",
"SET 4,E'","CBE3",
"SET 4,E","CBE3",
"SET 4,H'","CBE4",
"SET 4,H","CBE4",
"SET 4,(HL')","CBE6",
"SET 4,(HL)","CBE6",
"SET 4,(IX+%s),A'","DDCBsE7",
"SET 4,(IX+%s),A","DDCBsE7",
"SET 4,(IX+%s),B'","DDCBsE0",
"SET 4,(IX+%s),B","DDCBsE0",
"SET 4,(IX+%s),C'","DDCBsE1",
"SET 4,(IX+%s),C","DDCBsE1",
"SET 4,(IX+%s),D'","DDCBsE2",
"SET 4,(IX+%s),D","DDCBsE2",
"SET 4,(IX+%s),E'","DDCBsE3",
"SET 4,(IX+%s),E","DDCBsE3",
"SET 4,(IX+%s),H'","DDCBsE4",
"SET 4,(IX+%s),H","DDCBsE4",
"SET 4,(IX+%s),L'","DDCBsE5",
"SET 4,(IX+%s),L","DDCBsE5",
"SET 4,(IX+%s)","DDCBsE6",
"SET 4,(IY+%s),A'","FDCBsE7",
"SET 4,(IY+%s),A","FDCBsE7",
"SET 4,(IY+%s),B'","FDCBsE0",
"SET 4,(IY+%s),B","FDCBsE0",
"SET 4,(IY+%s),C'","FDCBsE1",
"SET 4,(IY+%s),C","FDCBsE1",
"SET 4,(IY+%s),D'","FDCBsE2",
"SET 4,(IY+%s),D","FDCBsE2",
"SET 4,(IY+%s),E'","FDCBsE3",
"SET 4,(IY+%s),E","FDCBsE3",
"SET 4,(IY+%s),H'","FDCBsE4",
"SET 4,(IY+%s),H","FDCBsE4",
"SET 4,(IY+%s),L'","FDCBsE5",
"SET 4,(IY+%s),L","FDCBsE5",
"SET 4,(IY+%s)","FDCBsE6",
"SET 4,L'","CBE5",
"SET 4,L","CBE5",
"SET 5,A'","CBEF",
"SET 5,A","CBEF",
"SET 5,B'","CBE8",
"SET 5,B","CBE8",
"SET 5,C'","CBE9",
"SET 5,C","CBE9",
"SET 5,D'","CBEA",
"SET 5,D","CBEA",
"SET 5,E'","CBEB",
"SET 5,E","CBEB",
"SET 5,H'","CBEC",
"SET 5,H","CBEC",
"SET 5,(HL')","CBEE",
"SET 5,(HL)","CBEE",
"SET 5,(IX+%s),A'","DDCBsEF",
"SET 5,(IX+%s),A","DDCBsEF",
"SET 5,(IX+%s),B'","DDCBsE8",
"SET 5,(IX+%s),B","DDCBsE8",
"SET 5,(IX+%s),C'","DDCBsE9",
"SET 5,(IX+%s),C","DDCBsE9",
"SET 5,(IX+%s),D'","DDCBsEA",
"SET 5,(IX+%s),D","DDCBsEA",
"SET 5,(IX+%s),E'","DDCBsEB",
"SET 5,(IX+%s),E","DDCBsEB",
"SET 5,(IX+%s),H'","DDCBsEC",
"SET 5,(IX+%s),H","DDCBsEC",
"SET 5,(IX+%s),L'","DDCBsED",
"SET 5,(IX+%s),L","DDCBsED",
"SET 5,(IX+%s)","DDCBsEE",
"SET 5,(IY+%s),A'","FDCBsEF",
"SET 5,(IY+%s),A","FDCBsEF",
"SET 5,(IY+%s),B'","FDCBsE8",
"SET 5,(IY+%s),B","FDCBsE8",
"SET 5,(IY+%s),C'","FDCBsE9",
"SET 5,(IY+%s),C","FDCBsE9",
"SET 5,(IY+%s),D'","FDCBsEA",
"SET 5,(IY+%s),D","FDCBsEA",
"SET 5,(IY+%s),E'","FDCBsEB",
"SET 5,(IY+%s),E","FDCBsEB",
"SET 5,(IY+%s),H'","FDCBsEC",
"SET 5,(IY+%s),H","FDCBsEC",
"SET 5,(IY+%s),L'","FDCBsED",
"SET 5,(IY+%s),L","FDCBsED",
"SET 5,(IY+%s)","FDCBsEE",
"SET 5,L'","CBED",
"SET 5,L","CBED",
"SET 6,A'","CBF7",
"SET 6,A","CBF7",
"SET 6,B'","CBF0",
"SET 6,B","CBF0",
"SET 6,C'","CBF1",
"SET 6,C","CBF1",
"SET 6,D'","CBF2",
"SET 6,D","CBF2",
"SET 6,E'","CBF3",
"SET 6,E","CBF3",
"SET 6,H'","CBF4",
"SET 6,H","CBF4",
"SET 6,(HL')","CBF6",
"SET 6,(HL)","CBF6",
"SET 6,(IX+%s),A'","DDCBsF7",
"SET 6,(IX+%s),A","DDCBsF7",
"SET 6,(IX+%s),B'","DDCBsF0",
"SET 6,(IX+%s),B","DDCBsF0",
"SET 6,(IX+%s),C'","DDCBsF1",
"SET 6,(IX+%s),C","DDCBsF1",
"SET 6,(IX+%s),D'","DDCBsF2",
"SET 6,(IX+%s),D","DDCBsF2",
"SET 6,(IX+%s),E'","DDCBsF3",
"SET 6,(IX+%s),E","DDCBsF3",
"SET 6,(IX+%s),H'","DDCBsF4",
"SET 6,(IX+%s),H","DDCBsF4",
"SET 6,(IX+%s),L'","DDCBsF5",
"SET 6,(IX+%s),L","DDCBsF5",
"SET 6,(IX+%s)","DDCBsF6",
"SET 6,(IY+%s),A'","FDCBsF7",
"SET 6,(IY+%s),A","FDCBsF7",
"SET 6,(IY+%s),B'","FDCBsF0",
"SET 6,(IY+%s),B","FDCBsF0",
"SET 6,(IY+%s),C'","FDCBsF1",
"SET 6,(IY+%s),C","FDCBsF1",
"SET 6,(IY+%s),D'","FDCBsF2",
"SET 6,(IY+%s),D","FDCBsF2",
"SET 6,(IY+%s),E'","FDCBsF3",
"SET 6,(IY+%s),E","FDCBsF3",
"SET 6,(IY+%s),H'","FDCBsF4",
"SET 6,(IY+%s),H","FDCBsF4",
"SET 6,(IY+%s),L'","FDCBsF5",
"SET 6,(IY+%s),L","FDCBsF5",
"SET 6,(IY+%s)","FDCBsF6",
"SET 6,L'","CBF5",
"SET 6,L","CBF5",
"SET 7,A'","CBFF",
"SET 7,A","CBFF",
"SET 7,B'","CBF8",
"SET 7,B","CBF8",
"SET 7,C'","CBF9",
"SET 7,C","CBF9",
"SET 7,D'","CBFA",
"SET 7,D","CBFA",
"SET 7,E'","CBFB",
"SET 7,E","CBFB",
"SET 7,H'","CBFC",
"SET 7,H","CBFC",
"SET 7,(HL')","CBFE",
"SET 7,(HL)","CBFE",
"SET 7,(IX+%s),A'","DDCBsFF",
"SET 7,(IX+%s),A","DDCBsFF",
"SET 7,(IX+%s),B'","DDCBsF8",
"SET 7,(IX+%s),B","DDCBsF8",
"SET 7,(IX+%s),C'","DDCBsF9",
"SET 7,(IX+%s),C","DDCBsF9",
"SET 7,(IX+%s),D'","DDCBsFA",
"SET 7,(IX+%s),D","DDCBsFA",
"SET 7,(IX+%s),E'","DDCBsFB",
"SET 7,(IX+%s),E","DDCBsFB",
"SET 7,(IX+%s),H'","DDCBsFC",
"SET 7,(IX+%s),H","DDCBsFC",
"SET 7,(IX+%s),L'","DDCBsFD",
"SET 7,(IX+%s),L","DDCBsFD",
"SET 7,(IX+%s)","DDCBsFE",
"SET 7,(IY+%s),A'","FDCBsFF",
"SET 7,(IY+%s),A","FDCBsFF",
"SET 7,(IY+%s),B'","FDCBsF8",
"SET 7,(IY+%s),B","FDCBsF8",
"SET 7,(IY+%s),C'","FDCBsF9",
"SET 7,(IY+%s),C","FDCBsF9",
"SET 7,(IY+%s),D'","FDCBsFA",
"SET 7,(IY+%s),D","FDCBsFA",
"SET 7,(IY+%s),E'","FDCBsFB",
"SET 7,(IY+%s),E","FDCBsFB",
"SET 7,(IY+%s),H'","FDCBsFC",
"SET 7,(IY+%s),H","FDCBsFC",
"SET 7,(IY+%s),L'","FDCBsFD",
"SET 7,(IY+%s),L","FDCBsFD",
"SET 7,(IY+%s)","FDCBsFE",
"SET 7,L'","CBFD",
"SET 7,L","CBFD",
"SL1 A'","CB37",
"SL1 A","CB37",
"SL1 B'","CB30",
"SL1 B","CB30",
"SL1 C'","CB31",
"SL1 C","CB31",
"SL1 D'","CB32",
"SL1 D","CB32",
"SL1 E'","CB33",
"SL1 E","CB33",
"SL1 H'","CB34",
"SL1 H","CB34",
"SL1 (HL')","CB36",
"SL1 (HL)","CB36",
"SL1 (IX+%s),A'","DDCBs37",
"SL1 (IX+%s),A","DDCBs37",
"SL1 (IX+%s),B'","DDCBs30",
"SL1 (IX+%s),B","DDCBs30",
"SL1 (IX+%s),C'","DDCBs31",
"SL1 (IX+%s),C","DDCBs31",
"SL1 (IX+%s),D'","DDCBs32",
"SL1 (IX+%s),D","DDCBs32",
"SL1 (IX+%s),E'","DDCBs33",
"SL1 (IX+%s),E","DDCBs33",
"SL1 (IX+%s),H'","DDCBs34",
"SL1 (IX+%s),H","DDCBs34",
"SL1 (IX+%s),L'","DDCBs35",
"SL1 (IX+%s),L","DDCBs35",
"SL1 (IX+%s)","DDCBs36",
"SL1 (IY+%s),A'","FDCBs37",
"SL1 (IY+%s),A","FDCBs37",
"SL1 (IY+%s),B'","FDCBs30",
"SL1 (IY+%s),B","FDCBs30",
"SL1 (IY+%s),C'","FDCBs31",
"SL1 (IY+%s),C","FDCBs31",
"SL1 (IY+%s),D'","FDCBs32",
"SL1 (IY+%s),D","FDCBs32",
"SL1 (IY+%s),E'","FDCBs33",
"SL1 (IY+%s),E","FDCBs33",
"SL1 (IY+%s),H'","FDCBs34",
"SL1 (IY+%s),H","FDCBs34",
"SL1 (IY+%s),L'","FDCBs35",
"SL1 (IY+%s),L","FDCBs35",
"SL1 (IY+%s)","FDCBs36",
"SL1 L'","CB35",
"SL1 L","CB35",
"SLA A'","CB27",
"SLA A","CB27",
"SLA B'","CB20",
"SLA B","CB20",
"SLA C'","CB21",
"SLA C","CB21",
"SLA D'","CB22",
"SLA D","CB22",
"SLA E'","CB23",
"SLA E","CB23",
"SLA H'","CB24",
"SLA H","CB24",
"SLA (HL')","CB26",
"SLA (HL)","CB26",
"SLA (IX+%s),A'","DDCBs27",
"SLA (IX+%s),A","DDCBs27",
"SLA (IX+%s),B'","DDCBs20",
"SLA (IX+%s),B","DDCBs20",
"SLA (IX+%s),C'","DDCBs21",
"SLA (IX+%s),C","DDCBs21",
"SLA (IX+%s),D'","DDCBs22",
"SLA (IX+%s),D","DDCBs22",
"SLA (IX+%s),E'","DDCBs23",
"SLA (IX+%s),E","DDCBs23",
"SLA (IX+%s),H'","DDCBs24",
"SLA (IX+%s),H","DDCBs24",
"SLA (IX+%s),L'","DDCBs25",
"SLA (IX+%s),L","DDCBs25",
"SLA (IX+%s)","DDCBs26",
"SLA (IY+%s),A'","FDCBs27",
"SLA (IY+%s),A","FDCBs27",
"SLA (IY+%s),B'","FDCBs20",
"SLA (IY+%s),B","FDCBs20",
"SLA (IY+%s),C'","FDCBs21",
"SLA (IY+%s),C","FDCBs21",
"SLA (IY+%s),D'","FDCBs22",
"SLA (IY+%s),D","FDCBs22",
"SLA (IY+%s),E'","FDCBs23",
"SLA (IY+%s),E","FDCBs23",
"SLA (IY+%s),H'","FDCBs24",
"SLA (IY+%s),H","FDCBs24",
"SLA (IY+%s),L'","FDCBs25",
"SLA (IY+%s),L","FDCBs25",
"SLA (IY+%s)","FDCBs26",
"SLA L'","CB25",
"SLA L","CB25",
"SLL A'","CB37",
"SLL A","CB37",
"SLL B'","CB30",
"SLL B","CB30",
"SLL C'","CB31",
"SLL C","CB31",
"SLL D'","CB32",
"SLL D","CB32",
"SLL E'","CB33",
"SLL E","CB33",
"SLL H'","CB34",
"SLL H","CB34",
"SLL (HL')","CB36",
"SLL (HL)","CB36",
"SLL (IX+%s),A'","DDCBs37",
"SLL (IX+%s),A","DDCBs37",
"SLL (IX+%s),B'","DDCBs30",
"SLL (IX+%s),B","DDCBs30",
"SLL (IX+%s),C'","DDCBs31",
"SLL (IX+%s),C","DDCBs31",
"SLL (IX+%s),D'","DDCBs32",
"SLL (IX+%s),D","DDCBs32",
"SLL (IX+%s),E'","DDCBs33",
"SLL (IX+%s),E","DDCBs33",
"SLL (IX+%s),H'","DDCBs34",
"SLL (IX+%s),H","DDCBs34",
"SLL (IX+%s),L'","DDCBs35",
"SLL (IX+%s),L","DDCBs35",
"SLL (IX+%s)","DDCBs36",
"SLL (IY+%s),A'","FDCBs37",
"SLL (IY+%s),A","FDCBs37",
"SLL (IY+%s),B'","FDCBs30",
"SLL (IY+%s),B","FDCBs30",
"SLL (IY+%s),C'","FDCBs31",
"SLL (IY+%s),C","FDCBs31",
"SLL (IY+%s),D'","FDCBs32",
"SLL (IY+%s),D","FDCBs32",
"SLL (IY+%s),E'","FDCBs33",
"SLL (IY+%s),E","FDCBs33",
"SLL (IY+%s),H'","FDCBs34",
"SLL (IY+%s),H","FDCBs34",
"SLL (IY+%s),L'","FDCBs35",
"SLL (IY+%s),L","FDCBs35",
"SLL (IY+%s)","FDCBs36",
"SLL L'","CB35",
"SLL L","CB35",
"SRA A'","CB2F",
"SRA A","CB2F",
"SRA B'","CB28",
"SRA B","CB28",
"SRA C'","CB29",
"SRA C","CB29",
"SRA D'","CB2A",
"SRA D","CB2A",
"SRA E'","CB2B",
"SRA E","CB2B",
"SRA H'","CB2C",
"SRA H","CB2C",
"SRA (HL')","CB2E",
"SRA (HL)","CB2E",
"SRA (IX+%s),A'","DDCBs2F",
"SRA (IX+%s),A","DDCBs2F",
"SRA (IX+%s),B'","DDCBs28",
"SRA (IX+%s),B","DDCBs28",
"SRA (IX+%s),C'","DDCBs29",
"SRA (IX+%s),C","DDCBs29",
"SRA (IX+%s),D'","DDCBs2A",
"SRA (IX+%s),D","DDCBs2A",
"SRA (IX+%s),E'","DDCBs2B",
"SRA (IX+%s),E","DDCBs2B",
"SRA (IX+%s),H'","DDCBs2C",
"SRA (IX+%s),H","DDCBs2C",
"SRA (IX+%s),L'","DDCBs2D",
"SRA (IX+%s),L","DDCBs2D",
"SRA (IX+%s)","DDCBs2E",
"SRA (IY+%s),A'","FDCBs2F",
"SRA (IY+%s),A","FDCBs2F",
"SRA (IY+%s),B'","FDCBs28",
"SRA (IY+%s),B","FDCBs28",
"SRA (IY+%s),C'","FDCBs29",
"SRA (IY+%s),C","FDCBs29",
"SRA (IY+%s),D'","FDCBs2A",
"SRA (IY+%s),D","FDCBs2A",
"SRA (IY+%s),E'","FDCBs2B",
"SRA (IY+%s),E","FDCBs2B",
"SRA (IY+%s),H'","FDCBs2C",
"SRA (IY+%s),H","FDCBs2C",
"SRA (IY+%s),L'","FDCBs2D",
"SRA (IY+%s),L","FDCBs2D",
"SRA (IY+%s)","FDCBs2E",
"SRA L'","CB2D",
"SRA L","CB2D",
"SRL A'","CB3F",
"SRL A","CB3F",
"SRL B'","CB38",
"SRL B","CB38",
"SRL C'","CB39",
"SRL C","CB39",
"SRL D'","CB3A",
"SRL D","CB3A",
"SRL E'","CB3B",
"SRL E","CB3B",
"SRL H'","CB3C",
"SRL H","CB3C",
"SRL (HL')","CB3E",
"SRL (HL)","CB3E",
"SRL (IX+%s),A'","DDCBs3F",
"SRL (IX+%s),A","DDCBs3F",
"SRL (IX+%s),B'","DDCBs38",
"SRL (IX+%s),B","DDCBs38",
"SRL (IX+%s),C'","DDCBs39",
"SRL (IX+%s),C","DDCBs39",
"SRL (IX+%s),D'","DDCBs3A",
"SRL (IX+%s),D","DDCBs3A",
"SRL (IX+%s),E'","DDCBs3B",
"SRL (IX+%s),E","DDCBs3B",
"SRL (IX+%s),H'","DDCBs3C",
"SRL (IX+%s),H","DDCBs3C",
"SRL (IX+%s),L'","DDCBs3D",
"SRL (IX+%s),L","DDCBs3D",
"SRL (IX+%s)","DDCBs3E",
"SRL (IY+%s),A'","FDCBs3F",
"SRL (IY+%s),A","FDCBs3F",
"SRL (IY+%s),B'","FDCBs38",
"SRL (IY+%s),B","FDCBs38",
"SRL (IY+%s),C'","FDCBs39",
"SRL (IY+%s),C","FDCBs39",
"SRL (IY+%s),D'","FDCBs3A",
"SRL (IY+%s),D","FDCBs3A",
"SRL (IY+%s),E'","FDCBs3B",
"SRL (IY+%s),E","FDCBs3B",
"SRL (IY+%s),H'","FDCBs3C",
"SRL (IY+%s),H","FDCBs3C",
"SRL (IY+%s),L'","FDCBs3D",
"SRL (IY+%s),L","FDCBs3D",
"SRL (IY+%s)","FDCBs3E",
"SRL L'","CB3D",
"SRL L","CB3D",
"STAE","ED95",
"SUB A',A'","97",
"SUB A,A","97",
"SUB A',B'","90",
"SUB A',B","90",
"SUB A,B'","90",
"SUB A,B","90",
"SUB A',C'","91",
"SUB A',C","91",
"SUB A,C'","91",
"SUB A,C","91",
"SUB A',D'","92",
"SUB A',D","92",
"SUB A,D'","92",
"SUB A,D","92",
"SUB A',E'","93",
"SUB A',E","93",
"SUB A,E'","93",
"SUB A,E","93",
"SUB A',H'","94",
"SUB A',H","94",
"SUB A,H'","94",
"SUB A,H","94",
"SUB A',L'","95",
"SUB A',L","95",
"SUB A,L'","95",
"SUB A,L","95",
"SUB A',IXH","DD94",
"SUB A',HX","DD94",
"SUB A,IXH","DD94",
"SUB A,HX","DD94",
"SUB A',IXL","DD95",
"SUB A',LX","DD95",
"SUB A,IXL","DD95",
"SUB A,LX","DD95",
"SUB A',(IX+%s)","DD96s",
"SUB A,(IX+%s)","DD96s",
"SUB A',(IY+%s)","FD96s",
"SUB A,(IY+%s)","FD96s",
"SUB A',(HL')","96",
"SUB A',(HL)","96",
"SUB A,(HL')","96",
"SUB A,(HL)","96",
"SUB A',IYH","FD94",
"SUB A',HY","FD94",
"SUB A,IYH","FD94",
"SUB A,HY","FD94",
"SUB A',IYL","FD95",
"SUB A',LY","FD95",
"SUB A,IYL","FD95",
"SUB A,LY","FD95",
"SUB A',%b","D6b",
"SUB A,%b","D6b",
"SUB A'","97",
"SUB A","97",
"SUB B'","90",
"SUB B","90",
"SUB C'","91",
"SUB C","91",
"SUB D'","92",
"SUB D","92",
"SUB E'","93",
"SUB E","93",
"SUB H'","94",
"SUB H","94",
"SUB (HL')","96",
"SUB (HL)","96",
"SUB IXH","DD94",
"SUB HX","DD94",
"SUB IXL","DD95",
"SUB LX","DD95",
"SUB IYH","FD94",
"SUB HY","FD94",
"SUB IYL","FD95",
"SUB LY","FD95",
"SUB (IX+%s)","DD96s",
"SUB (IY+%s)","FD96s",
"SUB L'","95",
"SUB L","95",
"SUB %b","D6b",
"SWAPNIB","ED23",
"SWAP","ED23",
"TEST %b","ED27b",
"XOR A',A'","AF",
"XOR A,A","AF",
"XOR A',B'","A8",
"XOR A',B","A8",
"XOR A,B'","A8",
"XOR A,B","A8",
"XOR A',C'","A9",
"XOR A',C","A9",
"XOR A,C'","A9",
"XOR A,C","A9",
"XOR A',D'","AA",
"XOR A',D","AA",
"XOR A,D'","AA",
"XOR A,D","AA",
"XOR A',E'","AB",
"XOR A',E","AB",
"XOR A,E'","AB",
"XOR A,E","AB",
"XOR A',H'","AC",
"XOR A',H","AC",
"XOR A,H'","AC",
"XOR A,H","AC",
"XOR A',(HL')","AE",
"XOR A',(HL)","AE",
"XOR A,(HL')","AE",
"XOR A,(HL)","AE",
"XOR A',IXH","DDAC",
"XOR A',HX","DDAC",
"XOR A,IXH","DDAC",
"XOR A,HX","DDAC",
"XOR A',IXL","DDAD",
"XOR A',LX","DDAD",
"XOR A,IXL","DDAD",
"XOR A,LX","DDAD",
"XOR A',(IX+%s)","DDAEs",
"XOR A,(IX+%s)","DDAEs",
"XOR A',IYH","FDAC",
"XOR A',HY","FDAC",
"XOR A,IYH","FDAC",
"XOR A,HY","FDAC",
"XOR A',IYL","FDAD",
"XOR A',LY","FDAD",
"XOR A,IYL","FDAD",
"XOR A,LY","FDAD",
"XOR A',(IY+%s)","FDAEs",
"XOR A,(IY+%s)","FDAEs",
"XOR A',L'","AD",
"XOR A',L","AD",
"XOR A,L'","AD",
"XOR A,L","AD",
"XOR A',%b","EEb",
"XOR A,%b","EEb",
"XOR A'","AF",
"XOR A","AF",
"XOR B'","A8",
"XOR B","A8",
"XOR C'","A9",
"XOR C","A9",
"XOR D'","AA",
"XOR D","AA",
"XOR E'","AB",
"XOR E","AB",
"XOR H'","AC",
"XOR H","AC",
"XOR (HL')","AE",
"XOR (HL)","AE",
"XOR IXH","DDAC",
"XOR HX","DDAC",
"XOR IXL","DDAD",
"XOR LX","DDAD",
"XOR (IX+%s)","DDAEs",
"XOR IYH","FDAC",
"XOR HY","FDAC",
"XOR IYL","FDAD",
"XOR LY","FDAD",
"XOR (IY+%s)","FDAEs",
"XOR L'","AD",
"XOR L","AD",
"XOR %b","EEb",
0};
static const char *const RELI[] = {
"DJNZ %r","10r",
"JR LSS,%r","38r",
"JR LST,%r","38r",
"JR GTE,%r","30r",
"JR GEQ,%r","30r",
"JR NEQ,%r","20r",
"JR EQU,%r","28r",
"JR C,%r","38r",
"JR NC,%r","30r",
"JR NZ,%r","20r",
"JR Z,%r","28r",
"JR %r","18r",
0};
