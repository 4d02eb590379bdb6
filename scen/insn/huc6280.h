/* huc6280: instruction text and encoding */
static const char *const INSN[] = {
"ADC #%b","69b",
"ADC (%b,X)","61b",
"ADC (%b),Y","71b",
"ADC (%b)","72b",
"ADC %b,X","75b",
"ADC %h,X","7Dh",
"ADC %w,Y","79w",
"ADC %b","65b",
"ADC %h","6Dh",
"ADC.B #%b","69b",
"ADC.B (%b,X)","61b",
"ADC.B (%b),Y","71b",
"ADC.B (%b)","72b",
"ADC.B %b,X","75b",
"ADC.W %w,X","7Dw",
"ADC.W %w,Y","79w",
"ADC.B %b","65b",
"ADC.W %w","6Dw",
"AND #%b","29b",
"AND (%b,X)","21b",
"AND (%b),Y","31b",
"AND (%b)","32b",
"AND %b,X","35b",
"AND %h,X","3Dh",
"AND %w,Y","39w",
"AND %b","25b",
"AND %h","2Dh",
"AND.B #%b","29b",
"AND.B (%b,X)","21b",
"AND.B (%b),Y","31b",
"AND.B (%b)","32b",
"AND.B %b,X","35b",
"AND.W %w,X","3Dw",
"AND.W %w,Y","39w",
"AND.B %b","25b",
"AND.W %w","2Dw",
"ASL A","0A",
"ASL %b,X","16b",
"ASL %h,X","1Eh",
"ASL %b","06b",
"ASL %h","0Eh",
"ASL.B %b,X","16b",
"ASL.W %w,X","1Ew",
"ASL.B %b","06b",
"ASL.W %w","0Ew",
"ASL","0A",
"BIT #%b","89b",
"BIT %b,X","34b",
"BIT %h,X","3Ch",
"BIT %b","24b",
"BIT %h","2Ch",
"BIT.B %b,X","34b",
"BIT.W %w,X","3Cw",
"BIT.B %b","24b",
"BIT.W %w","2Cw",
"BRK %b","00b",
"BRK.B %b","00b",
"BRK","0000",
"CLC","18",
"CLD","D8",
"CLI","58",
"CLV","B8",
"CSL","54",
"CLA","62",
"CLX","82",
"CLY","C2",
"CSH","D4",
"CMP #%b","C9b",
"CMP (%b,X)","C1b",
"CMP (%b),Y","D1b",
"CMP (%b)","D2b",
"CMP %b,X","D5b",
"CMP %h,X","DDh",
"CMP %w,Y","D9w",
"CMP %b","C5b",
"CMP %h","CDh",
"CMP.B #%b","C9b",
"CMP.B (%b,X)","C1b",
"CMP.B (%b),Y","D1b",
"CMP.B (%b)","D2b",
"CMP.B %b,X","D5b",
"CMP.W %w,X","DDw",
"CMP.W %w,Y","D9w",
"CMP.B %b","C5b",
"CMP.W %w","CDw",
"CPX #%b","E0b",
"CPX %b","E4b",
"CPX %h","ECh",
"CPX.B #%b","E0b",
"CPX.B %b","E4b",
"CPX.W %w","ECw",
"CPY #%b","C0b",
"CPY %b","C4b",
"CPY %h","CCh",
"CPY.B #%b","C0b",
"CPY.B %b","C4b",
"CPY.W %w","CCw",
"DEC %b,X","D6b",
"DEC %h,X","DEh",
"DEC %b","C6b",
"DEC %h","CEh",
"DEA","3A",
"DEX","CA",
"DEY","88",
"DEC.B %b,X","D6b",
"DEC.W %w,X","DEw",
"DEC.B %b","C6b",
"DEC.W %w","CEw",
"EOR #%b","49b",
"EOR (%b,X)","41b",
"EOR (%b),Y","51b",
"EOR (%b)","52b",
"EOR %b,X","55b",
"EOR %h,X","5Dh",
"EOR %w,Y","59w",
"EOR %b","45b",
"EOR %h","4Dh",
"EOR.B #%b","49b",
"EOR.B (%b,X)","41b",
"EOR.B (%b),Y","51b",
"EOR.B (%b)","52b",
"EOR.B %b,X","55b",
"EOR.W %w,X","5Dw",
"EOR.W %w,Y","59w",
"EOR.B %b","45b",
"EOR.W %w","4Dw",
"INC %b,X","F6b",
"INC %h,X","FEh",
"INC %b","E6b",
"INC %h","EEh",
"INA","1A",
"INX","E8",
"INY","C8",
"INC.B %b,X","F6b",
"INC.W %w,X","FEw",
"INC.B %b","E6b",
"INC.W %w","EEw",
"JMP (%w,X)","7Cw",
"JMP (%w)","6Cw",
"JMP %w","4Cw",
"JSR %w","20w",
"JMP.W (%w,X)","7Cw",
"JMP.W (%w)","6Cw",
"JMP.W %w","4Cw",
"JSR.W %w","20w",
"LDA #%b","A9b",
"LDA (%b,X)","A1b",
"LDA (%b),Y","B1b",
"LDA (%b)","B2b",
"LDA %b,X","B5b",
"LDA %h,X","BDh",
"LDA %w,Y","B9w",
"LDA %b","A5b",
"LDA %h","ADh",
"LDA.B #%b","A9b",
"LDA.B (%b,X)","A1b",
"LDA.B (%b),Y","B1b",
"LDA.B (%b)","B2b",
"LDA.B %b,X","B5b",
"LDA.W %w,X","BDw",
"LDA.W %w,Y","B9w",
"LDA.B %b","A5b",
"LDA.W %w","ADw",
"LDX #%b","A2b",
"LDX %b,Y","B6b",
"LDX %h,Y","BEh",
"LDX %b","A6b",
"LDX %h","AEh",
"LDX.B #%b","A2b",
"LDX.B %b,Y","B6b",
"LDX.W %w,Y","BEw",
"LDX.B %b","A6b",
"LDX.W %w","AEw",
"LDY #%b","A0b",
"LDY %b,X","B4b",
"LDY %h,X","BCh",
"LDY %b","A4b",
"LDY %h","ACh",
"LDY.B #%b","A0b",
"LDY.B %b,X","B4b",
"LDY.W %w,X","BCw",
"LDY.B %b","A4b",
"LDY.W %w","ACw",
"LSR A","4A",
"LSR %b,X","56b",
"LSR %h,X","5Eh",
"LSR %b","46b",
"LSR %h","4Eh",
"LSR.B %b,X","56b",
"LSR.W %w,X","5Ew",
"LSR.B %b","46b",
"LSR.W %w","4Ew",
"LSR","4A",
"NOP","EA",
"ORA #%b","09b",
"ORA (%b,X)","01b",
"ORA (%b),Y","11b",
"ORA (%b)","12b",
"ORA %b,X","15b",
"ORA %h,X","1Dh",
"ORA %w,Y","19w",
"ORA %b","05b",
"ORA %h","0Dh",
"ORA.B #%b","09b",
"ORA.B (%b,X)","01b",
"ORA.B (%b),Y","11b",
"ORA.B (%b)","12b",
"ORA.B %b,X","15b",
"ORA.W %w,X","1Dw",
"ORA.W %w,Y","19w",
"ORA.B %b","05b",
"ORA.W %w","0Dw",
"PHA","48",
"PHP","08",
"PHX","DA",
"PHY","5A",
"PLA","68",
"PLP","28",
"PLX","FA",
"PLY","7A",
"ROL A","2A",
"ROL %b,X","36b",
"ROL %h,X","3Eh",
"ROL %b","26b",
"ROL %h","2Eh",
"ROL.B %b,X","36b",
"ROL.W %w,X","3Ew",
"ROL.B %b","26b",
"ROL.W %w","2Ew",
"ROL","2A",
"ROR A","6A",
"ROR %b,X","76b",
"ROR %h,X","7Eh",
"ROR %b","66b",
"ROR %h","6Eh",
"ROR.B %b,X","76b",
"ROR.W %w,X","7Ew",
"ROR.B %b","66b",
"ROR.W %w","6Ew",
"ROR","6A",
"RMB0 %b","07b",
"RMB1 %b","17b",
"RMB2 %b","27b",
"RMB3 %b","37b",
"RMB4 %b","47b",
"RMB5 %b","57b",
"RMB6 %b","67b",
"RMB7 %b","77b",
"RTI","40",
"RTS","60",
"SMB0 %b","87b",
"SMB1 %b","97b",
"SMB2 %b","A7b",
"SMB3 %b","B7b",
"SMB4 %b","C7b",
"SMB5 %b","D7b",
"SMB6 %b","E7b",
"SMB7 %b","F7b",
"SBC #%b","E9b",
"SBC (%b,X)","E1b",
"SBC (%b),Y","F1b",
"SBC (%b)","F2b",
"SBC %b,X","F5b",
"SBC %h,X","FDh",
"SBC %w,Y","F9w",
"SBC %b","E5b",
"SBC %h","EDh",
"SBC.B #%b","E9b",
"SBC.B (%b,X)","E1b",
"SBC.B (%b),Y","F1b",
"SBC.B (%b)","F2b",
"SBC.B %b,X","F5b",
"SBC.W %w,X","FDw",
"SBC.W %w,Y","F9w",
"SBC.B %b","E5b",
"SBC.W %w","EDw",
"SEC","38",
"SED","F8",
"SEI","78",
"SET","F4",
"STA (%b,X)","81b",
"STA (%b),Y","91b",
"STA (%b)","92b",
"STA %b,X","95b",
"STA %h,X","9Dh",
"STA %w,Y","99w",
"STA %b","85b",
"STA %h","8Dh",
"STA.B (%b,X)","81b",
"STA.B (%b),Y","91b",
"STA.B (%b)","92b",
"STA.B %b,X","95b",
"STA.W %w,X","9Dw",
"STA.W %w,Y","99w",
"STA.B %b","85b",
"STA.W %w","8Dw",
"STX %b,Y","96b",
"STX %b","86b",
"STX %h","8Eh",
"STX.B %b,Y","96b",
"STX.B %b","86b",
"STX.W %w","8Ew",
"STY %b,X","94b",
"STY %b","84b",
"STY %h","8Ch",
"STY.B %b,X","94b",
"STY.B %b","84b",
"STY.W %w","8Cw",
"STZ %b,X","74b",
"STZ %h,X","9Eh",
"STZ %b","64b",
"STZ %h","9Ch",
"STZ.B %b,X","74b",
"STZ.W %w,X","9Ew",
"STZ.B %b","64b",
"STZ.W %w","9Cw",
"SXY","02",
"SAX","22",
"SAY","42",
"ST0 #%b","03b",
"ST1 #%b","13b",
"ST2 #%b","23b",
"ST0.B #%b","03b",
"ST1.B #%b","13b",
"ST2.B #%b","23b",
"TMA #%b","43b",
"TAM #%b","53b",
"TMA.B #%b","43b",
"TAM.B #%b","53b",
"TAX","AA",
"TAY","A8",
"TSX","BA",
"TXA","8A",
"TXS","9A",
"TYA","98",
"TRB %b","14b",
"TRB %h","1Ch",
"TRB.B %b","14b",
"TRB.W %w","1Cw",
"TSB %b","04b",
"TSB %h","0Ch",
"TSB.B %b","04b",
"TSB.W %w","0Cw",
"TII %w,%v,%h","73wvh",
"TDD %w,%v,%h","C3wvh",
"TIN %w,%v,%h","D3wvh",
"TIA %w,%v,%h","E3wvh",
"TAI %w,%v,%h","F3wvh",
"TST #%b,%c,X","A3bc",
"TST #%b,%h,X","B3bh",
"TST #%b,%c","83bc",
"TST #%b,%h","93bh",
0};
static const char *const RELI[] = {
"BBR0 %b,%r","0Fbr",
"BBR1 %b,%r","1Fbr",
"BBR2 %b,%r","2Fbr",
"BBR3 %b,%r","3Fbr",
"BBR4 %b,%r","4Fbr",
"BBR5 %b,%r","5Fbr",
"BBR6 %b,%r","6Fbr",
"BBR7 %b,%r","7Fbr",
"BBS0 %b,%r","8Fbr",
"BBS1 %b,%r","9Fbr",
"BBS2 %b,%r","AFbr",
"BBS3 %b,%r","BFbr",
"BBS4 %b,%r","CFbr",
"BBS5 %b,%r","DFbr",
"BBS6 %b,%r","EFbr",
"BBS7 %b,%r","FFbr",
"BCC %r","90r",
"BCS %r","B0r",
"BEQ %r","F0r",
"BMI %r","30r",
"BNE %r","D0r",
"BPL %r","10r",
"BVC %r","50r",
"BVS %r","70r",
"BSR %r","44r",
"BRA %r","80r",
"BCC.B %r","90r",
"BCS.B %r","B0r",
"BEQ.B %r","F0r",
"BMI.B %r","30r",
"BNE.B %r","D0r",
"BPL.B %r","10r",
"BVC.B %r","50r",
"BVS.B %r","70r",
"BSR.B %r","44r",
"BRA.B %r","80r",
0};
