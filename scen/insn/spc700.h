/* spc700: instruction text and encoding */
static const char *const INSN[] = {
"ADC A,(X)","86",
"ADC A,#%b","88b",
"ADC A,!%w+X","95w",
"ADC A,!%w+Y","96w",
"ADC A,!%w","85w",
"ADC A,[%b+X]","87b",
"ADC A,[%b]+Y","97b",
"ADC A,%b+X","94b",
"ADC A,%b","84b",
"ADC (X),(Y)","99",
"ADC %b,#%c","98cb",
"ADC %b,%c","89cb",
"ADDW YA,%b","7Ab",
"AND1 C,/%t.0","6At0",
"AND1 C,/%t.1","6At1",
"AND1 C,/%t.2","6At2",
"AND1 C,/%t.3","6At3",
"AND1 C,/%t.4","6At4",
"AND1 C,/%t.5","6At5",
"AND1 C,/%t.6","6At6",
"AND1 C,/%t.7","6At7",
"AND1 C,/%t,0","6At0",
"AND1 C,/%t,1","6At1",
"AND1 C,/%t,2","6At2",
"AND1 C,/%t,3","6At3",
"AND1 C,/%t,4","6At4",
"AND1 C,/%t,5","6At5",
"AND1 C,/%t,6","6At6",
"AND1 C,/%t,7","6At7",
"AND1 C,%t.0","4At0",
"AND1 C,%t.1","4At1",
"AND1 C,%t.2","4At2",
"AND1 C,%t.3","4At3",
"AND1 C,%t.4","4At4",
"AND1 C,%t.5","4At5",
"AND1 C,%t.6","4At6",
"AND1 C,%t.7","4At7",
"AND1 C,%t,0","4At0",
"AND1 C,%t,1","4At1",
"AND1 C,%t,2","4At2",
"AND1 C,%t,3","4At3",
"AND1 C,%t,4","4At4",
"AND1 C,%t,5","4At5",
"AND1 C,%t,6","4At6",
"AND1 C,%t,7","4At7",
"AND A,(X)","26",
"AND A,#%b","28b",
"AND A,!%w+X","35w",
"AND A,!%w+Y","36w",
"AND A,!%w","25w",
"AND A,[%b+X]","27b",
"AND A,[%b]+Y","37b",
"AND A,%b+X","34b",
"AND A,%b","24b",
"AND (X),(Y)","39",
"AND %b,#%c","38cb",
"AND %b,%c","29cb",
"ASL !%w","0Cw",
"ASL A","1C",
"ASL %b+X","1Bb",
"ASL %b","0Bb",
"BRK","0F",
"CALL !%w","3Fw",
"CLR1 %b.0","12b",
"CLR1 %b.1","32b",
"CLR1 %b.2","52b",
"CLR1 %b.3","72b",
"CLR1 %b.4","92b",
"CLR1 %b.5","B2b",
"CLR1 %b.6","D2b",
"CLR1 %b.7","F2b",
"CLR1 %b,0","12b",
"CLR1 %b,1","32b",
"CLR1 %b,2","52b",
"CLR1 %b,3","72b",
"CLR1 %b,4","92b",
"CLR1 %b,5","B2b",
"CLR1 %b,6","D2b",
"CLR1 %b,7","F2b",
"CLRC","60",
"CLRP","20",
"CLRV","E0",
"CMP (X),(Y)","79",
"CMP A,(X)","66",
"CMP A,#%b","68b",
"CMP A,!%w+X","75w",
"CMP A,!%w+Y","76w",
"CMP A,!%w","65w",
"CMP A,[%b+X]","67b",
"CMP A,[%b]+Y","77b",
"CMP A,%b+X","74b",
"CMP A,%b","64b",
"CMP X,!%w","1Ew",
"CMP X,#%b","C8b",
"CMP X,%b","3Eb",
"CMP Y,!%w","5Ew",
"CMP Y,#%b","ADb",
"CMP Y,%b","7Eb",
"CMP %b,#%c","78cb",
"CMP %b,%c","69cb",
"CMPW YA,%b","5Ab",
"DAA","DF",
"DAA A","DF",
"DAS","BE",
"DAS A","BE",
"DEC A","9C",
"DEC !%w","8Cw",
"DEC X","1D",
"DEC Y","DC",
"DEC %b+X","9Bb",
"DEC %b","8Bb",
"DECW %b","1Ab",
"DI","C0",
"DIV YA,X","9E",
"EI","A0",
"EOR1 C,%t.0","8At0",
"EOR1 C,%t.1","8At1",
"EOR1 C,%t.2","8At2",
"EOR1 C,%t.3","8At3",
"EOR1 C,%t.4","8At4",
"EOR1 C,%t.5","8At5",
"EOR1 C,%t.6","8At6",
"EOR1 C,%t.7","8At7",
"EOR1 C,%t,0","8At0",
"EOR1 C,%t,1","8At1",
"EOR1 C,%t,2","8At2",
"EOR1 C,%t,3","8At3",
"EOR1 C,%t,4","8At4",
"EOR1 C,%t,5","8At5",
"EOR1 C,%t,6","8At6",
"EOR1 C,%t,7","8At7",
"EOR A,(X)","46",
"EOR A,#%b","48b",
"EOR A,!%w+X","55w",
"EOR A,!%w+Y","56w",
"EOR A,!%w","45w",
"EOR A,[%b+X]","47b",
"EOR A,[%b]+Y","57b",
"EOR A,%b+X","54b",
"EOR A,%b","44b",
"EOR (X),(Y)","59",
"EOR %b,#%c","58cb",
"EOR %b,%c","49cb",
"INC !%w","ACw",
"INC A","BC",
"INC X","3D",
"INC Y","FC",
"INC %b+X","BBb",
"INC %b","ABb",
"INCW %b","3Ab",
"JMP !%w","5Fw",
"JMP [!%w+X]","1Fw",
"LSR !%w","4Cw",
"LSR A","5C",
"LSR %b+X","5Bb",
"LSR %b","4Bb",
"MOV A,#%b","E8b",
"MOV A,(X)+","BF",
"MOV A,(X)","E6",
"MOV A,!%w+X","F5w",
"MOV A,!%w+Y","F6w",
"MOV A,!%w","E5w",
"MOV A,X","7D",
"MOV A,Y","DD",
"MOV A,[%b+X]","E7b",
"MOV A,[%b]+Y","F7b",
"MOV A,%b+X","F4b",
"MOV A,%b","E4b",
"MOV SP,X","BD",
"MOV X,A","5D",
"MOV X,!%w","E9w",
"MOV X,SP","9D",
"MOV X,#%b","CDb",
"MOV X,%b+Y","F9b",
"MOV X,%b","F8b",
"MOV (X)+,A","AF",
"MOV (X),A","C6",
"MOV [%b+X],A","C7b",
"MOV [%b]+Y,A","D7b",
"MOV !%w+X,A","D5w",
"MOV !%w,A","C5w",
"MOV !%w,X","C9w",
"MOV !%w+Y,A","D6w",
"MOV !%w,Y","CCw",
"MOV Y,!%w","ECw",
"MOV Y,A","FD",
"MOV Y,#%b","8Db",
"MOV Y,%b+X","FBb",
"MOV Y,%b","EBb",
"MOV %b,A","C4b",
"MOV %b,#%c","8Fcb",
"MOV %b,X","D8b",
"MOV %b+X,A","D4b",
"MOV %b+X,Y","DBb",
"MOV %b+Y,X","D9b",
"MOV %b,Y","CBb",
"MOV %b,%c","FAcb",
"MOVW YA,%b","BAb",
"MOVW %b,YA","DAb",
"MOV1 C,%t.0","AAt0",
"MOV1 C,%t.1","AAt1",
"MOV1 C,%t.2","AAt2",
"MOV1 C,%t.3","AAt3",
"MOV1 C,%t.4","AAt4",
"MOV1 C,%t.5","AAt5",
"MOV1 C,%t.6","AAt6",
"MOV1 C,%t.7","AAt7",
"MOV1 C,%t,0","AAt0",
"MOV1 C,%t,1","AAt1",
"MOV1 C,%t,2","AAt2",
"MOV1 C,%t,3","AAt3",
"MOV1 C,%t,4","AAt4",
"MOV1 C,%t,5","AAt5",
"MOV1 C,%t,6","AAt6",
"MOV1 C,%t,7","AAt7",
"MOV1 %t.0,C","CAt0",
"MOV1 %t.1,C","CAt1",
"MOV1 %t.2,C","CAt2",
"MOV1 %t.3,C","CAt3",
"MOV1 %t.4,C","CAt4",
"MOV1 %t.5,C","CAt5",
"MOV1 %t.6,C","CAt6",
"MOV1 %t.7,C","CAt7",
"MOV1 %t,0,C","CAt0",
"MOV1 %t,1,C","CAt1",
"MOV1 %t,2,C","CAt2",
"MOV1 %t,3,C","CAt3",
"MOV1 %t,4,C","CAt4",
"MOV1 %t,5,C","CAt5",
"MOV1 %t,6,C","CAt6",
"MOV1 %t,7,C","CAt7",
"MUL YA","CF",
"NOP","00",
"NOT1 %t.0","EAt0",
"NOT1 %t.1","EAt1",
"NOT1 %t.2","EAt2",
"NOT1 %t.3","EAt3",
"NOT1 %t.4","EAt4",
"NOT1 %t.5","EAt5",
"NOT1 %t.6","EAt6",
"NOT1 %t.7","EAt7",
"NOT1 %t,0","EAt0",
"NOT1 %t,1","EAt1",
"NOT1 %t,2","EAt2",
"NOT1 %t,3","EAt3",
"NOT1 %t,4","EAt4",
"NOT1 %t,5","EAt5",
"NOT1 %t,6","EAt6",
"NOT1 %t,7","EAt7",
"NOTC","ED",
"OR1 C,/%t.0","2At0",
"OR1 C,/%t.1","2At1",
"OR1 C,/%t.2","2At2",
"OR1 C,/%t.3","2At3",
"OR1 C,/%t.4","2At4",
"OR1 C,/%t.5","2At5",
"OR1 C,/%t.6","2At6",
"OR1 C,/%t.7","2At7",
"OR1 C,/%t,0","2At0",
"OR1 C,/%t,1","2At1",
"OR1 C,/%t,2","2At2",
"OR1 C,/%t,3","2At3",
"OR1 C,/%t,4","2At4",
"OR1 C,/%t,5","2At5",
"OR1 C,/%t,6","2At6",
"OR1 C,/%t,7","2At7",
"OR1 C,%t.0","0At0",
"OR1 C,%t.1","0At1",
"OR1 C,%t.2","0At2",
"OR1 C,%t.3","0At3",
"OR1 C,%t.4","0At4",
"OR1 C,%t.5","0At5",
"OR1 C,%t.6","0At6",
"OR1 C,%t.7","0At7",
"OR1 C,%t,0","0At0",
"OR1 C,%t,1","0At1",
"OR1 C,%t,2","0At2",
"OR1 C,%t,3","0At3",
"OR1 C,%t,4","0At4",
"OR1 C,%t,5","0At5",
"OR1 C,%t,6","0At6",
"OR1 C,%t,7","0At7",
"OR A,(X)","06",
"OR A,#%b","08b",
"OR A,!%w+X","15w",
"OR A,!%w+Y","16w",
"OR A,!%w","05w",
"OR A,[%b+X]","07b",
"OR A,[%b]+Y","17b",
"OR A,%b+X","14b",
"OR A,%b","04b",
"OR (X),(Y)","19",
"OR %b,#%c","18cb",
"OR %b,%c","09cb",
"PCALL %b","4Fb",
"POP A","AE",
"POP PSW","8E",
"POP X","CE",
"POP Y","EE",
"PUSH A","2D",
"PUSH PSW","0D",
"PUSH X","4D",
"PUSH Y","6D",
"RET","6F",
"RETI","7F",
"ROL A","3C",
"ROL !%w","2Cw",
"ROL %b+X","3Bb",
"ROL %b","2Bb",
"ROR A","7C",
"ROR !%w","6Cw",
"ROR %b+X","7Bb",
"ROR %b","6Bb",
"SBC A,(X)","A6",
"SBC A,#%b","A8b",
"SBC A,!%w+X","B5w",
"SBC A,!%w+Y","B6w",
"SBC A,!%w","A5w",
"SBC A,[%b+X]","A7b",
"SBC A,[%b]+Y","B7b",
"SBC A,%b+X","B4b",
"SBC A,%b","A4b",
"SBC (X),(Y)","B9",
"SBC %b,#%c","B8cb",
"SBC %b,%c","A9cb",
"SET1 %b.0","02b",
"SET1 %b.1","22b",
"SET1 %b.2","42b",
"SET1 %b.3","62b",
"SET1 %b.4","82b",
"SET1 %b.5","A2b",
"SET1 %b.6","C2b",
"SET1 %b.7","E2b",
"SET1 %b,0","02b",
"SET1 %b,1","22b",
"SET1 %b,2","42b",
"SET1 %b,3","62b",
"SET1 %b,4","82b",
"SET1 %b,5","A2b",
"SET1 %b,6","C2b",
"SET1 %b,7","E2b",
"SETC","80",
"SETP","40",
"SLEEP","EF",
"STOP","FF",
"SUBW YA,%b","9Ab",
"TCALL 0","01",
"TCALL 1","11",
"TCALL 2","21",
"TCALL 3","31",
"TCALL 4","41",
"TCALL 5","51",
"TCALL 6","61",
"TCALL 7","71",
"TCALL 8","81",
"TCALL 9","91",
"TCALL 10","A1",
"TCALL 11","B1",
"TCALL 12","C1",
"TCALL 13","D1",
"TCALL 14","E1",
"TCALL 15","F1",
"TCLR1 !%w","4Ew",
"TSET1 !%w","0Ew",
"XCN A","9F",
0};
static const char *const RELI[] = {
"BBC %b.0,%r","13br",
"BBC %b.1,%r","33br",
"BBC %b.2,%r","53br",
"BBC %b.3,%r","73br",
"BBC %b.4,%r","93br",
"BBC %b.5,%r","B3br",
"BBC %b.6,%r","D3br",
"BBC %b.7,%r","F3br",
"BBC %b,0,%r","13br",
"BBC %b,1,%r","33br",
"BBC %b,2,%r","53br",
"BBC %b,3,%r","73br",
"BBC %b,4,%r","93br",
"BBC %b,5,%r","B3br",
"BBC %b,6,%r","D3br",
"BBC %b,7,%r","F3br",
"BBS %b.0,%r","03br",
"BBS %b.1,%r","23br",
"BBS %b.2,%r","43br",
"BBS %b.3,%r","63br",
"BBS %b.4,%r","83br",
"BBS %b.5,%r","A3br",
"BBS %b.6,%r","C3br",
"BBS %b.7,%r","E3br",
"BBS %b,0,%r","03br",
"BBS %b,1,%r","23br",
"BBS %b,2,%r","43br",
"BBS %b,3,%r","63br",
"BBS %b,4,%r","83br",
"BBS %b,5,%r","A3br",
"BBS %b,6,%r","C3br",
"BBS %b,7,%r","E3br",
"BCC %r","90r",
"BCS %r","B0r",
"BEQ %r","F0r",
"BMI %r","30r",
"BNE %r","D0r",
"BPL %r","10r",
"BRA %r","2Fr",
"BVC %r","50r",
"BVS %r","70r",
"CBNE %b+X,%r","DEbr",
"CBNE %b,%r","2Ebr",
"DBNZ Y,%r","FEr",
"DBNZ %b,%r","6Ebr",
0};
