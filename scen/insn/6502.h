/* 6502: instruction text and encoding */
static const char *const INSN[] = {
"ADC #%b","69b",
"ADC (%b,X)","61b",
"ADC (%b),Y","71b",
"ADC %b,X","75b",
"ADC %h,X","7Dh",
"ADC %w,Y","79w",
"ADC %b","65b",
"ADC %h","6Dh",
"ADC.B #%b","69b",
"ADC.B (%b,X)","61b",
"ADC.B (%b),Y","71b",
"ADC.B %b,X","75b",
"ADC.W %w,X","7Dw",
"ADC.W %w,Y","79w",
"ADC.B %b","65b",
"ADC.W %w","6Dw",
"ALR #%b","4Bb",
"ALR.B #%b","4Bb",
"ANC #%b","0Bb",
"ANC.B #%b","0Bb",
"ANC2 #%b","2Bb",
"ANC2.B #%b","2Bb",
"ANE #%b","8Bb",
"ANE.B #%b","8Bb",
"ARR #%b","6Bb",
"ARR.B #%b","6Bb",
"AXS #%b","CBb",
"AXS.B #%b","CBb",
"AND #%b","29b",
"AND (%b,X)","21b",
"AND (%b),Y","31b",
"AND %b,X","35b",
"AND %h,X","3Dh",
"AND %w,Y","39w",
"AND %b","25b",
"AND %h","2Dh",
"AND.B #%b","29b",
"AND.B (%b,X)","21b",
"AND.B (%b),Y","31b",
"AND.B %b,X","35b",
"AND.W %w,X","3Dw",
"AND.W %w,Y","39w",
"AND.B %b","25b",
"AND.W %w","2Dw",
"ASL A","0A",
"ASL %b,X","16b",
"ASL %h,X","1Eh",
"ASL %b","06b",
"ASL %h","0Eh",
"ASL.B %b,X","16b",
"ASL.W %w,X","1Ew",
"ASL.B %b","06b",
"ASL.W %w","0Ew",
"ASL","0A",
"BIT %b","24b",
"BIT %h","2Ch",
"BIT.B %b","24b",
"BIT.W %w","2Cw",
"BRK %b","00b",
"BRK.B %b","00b",
"BRK","0000",
"CLC","18",
"CLD","D8",
"CLI","58",
"CLV","B8",
"CMP #%b","C9b",
"CMP (%b,X)","C1b",
"CMP (%b),Y","D1b",
"CMP %b,X","D5b",
"CMP %h,X","DDh",
"CMP %w,Y","D9w",
"CMP %b","C5b",
"CMP %h","CDh",
"CMP.B #%b","C9b",
"CMP.B (%b,X)","C1b",
"CMP.B (%b),Y","D1b",
"CMP.B %b,X","D5b",
"CMP.W %w,X","DDw",
"CMP.W %w,Y","D9w",
"CMP.B %b","C5b",
"CMP.W %w","CDw",
"CPX #%b","E0b",
"CPX %b","E4b",
"CPX %h","ECh",
"CPX.B #%b","E0b",
"CPX.B %b","E4b",
"CPX.W %w","ECw",
"CPY #%b","C0b",
"CPY %b","C4b",
"CPY %h","CCh",
"CPY.B #%b","C0b",
"CPY.B %b","C4b",
"CPY.W %w","CCw",
"DCP (%b,X)","C3b",
"DCP (%b),Y","D3b",
"DCP %b,X","D7b",
"DCP %h,X","DFh",
"DCP %w,Y","DBw",
"DCP %b","C7b",
"DCP %h","CFh",
"DCP.B (%b,X)","C3b",
"DCP.B (%b),Y","D3b",
"DCP.B %b,X","D7b",
"DCP.W %w,X","DFw",
"DCP.W %w,Y","DBw",
"DCP.B %b","C7b",
"DCP.W %w","CFw",
"DEC %b,X","D6b",
"DEC %h,X","DEh",
"DEC %b","C6b",
"DEC %h","CEh",
"DEX","CA",
"DEY","88",
"DEC.B %b,X","D6b",
"DEC.W %w,X","DEw",
"DEC.B %b","C6b",
"DEC.W %w","CEw",
"EOR #%b","49b",
"EOR (%b,X)","41b",
"EOR (%b),Y","51b",
"EOR %b,X","55b",
"EOR %h,X","5Dh",
"EOR %w,Y","59w",
"EOR %b","45b",
"EOR %h","4Dh",
"EOR.B #%b","49b",
"EOR.B (%b,X)","41b",
"EOR.B (%b),Y","51b",
"EOR.B %b,X","55b",
"EOR.W %w,X","5Dw",
"EOR.W %w,Y","59w",
"EOR.B %b","45b",
"EOR.W %w","4Dw",
"INC %b,X","F6b",
"INC %h,X","FEh",
"INC %b","E6b",
"INC %h","EEh",
"INX","E8",
"INY","C8",
"INC.B %b,X","F6b",
"INC.W %w,X","FEw",
"INC.B %b","E6b",
"INC.W %w","EEw",
"ISC (%b,X)","E3b",
"ISC (%b),Y","F3b",
"ISC %b,X","F7b",
"ISC %h,X","FFh",
"ISC %w,Y","FBw",
"ISC %b","E7b",
"ISC %h","EFh",
"ISC.B (%b,X)","E3b",
"ISC.B (%b),Y","F3b",
"ISC.B %b,X","F7b",
"ISC.W %w,X","FFw",
"ISC.W %w,Y","FBw",
"ISC.B %b","E7b",
"ISC.W %w","EFw",
"JAM","02",
"JMP (%w)","6Cw",
"JMP %w","4Cw",
"JSR %w","20w",
"JMP.W (%w)","6Cw",
"JMP.W %w","4Cw",
"JSR.W %w","20w",
"LAS %w,Y","BBw",
"LAS.W %w,Y","BBw",
"LAX (%b,X)","A3b",
"LAX (%b),Y","B3b",
"LAX %b,Y","B7b",
"LAX %h,Y","BFh",
"LAX %b","A7b",
"LAX %h","AFh",
"LAX.B (%b,X)","A3b",
"LAX.B (%b),Y","B3b",
"LAX.B %b,Y","B7b",
"LAX.W %w,Y","BFw",
"LAX.B %b","A7b",
"LAX.W %w","AFw",
"LDA #%b","A9b",
"LDA (%b,X)","A1b",
"LDA (%b),Y","B1b",
"LDA %b,X","B5b",
"LDA %h,X","BDh",
"LDA %w,Y","B9w",
"LDA %b","A5b",
"LDA %h","ADh",
"LDA.B #%b","A9b",
"LDA.B (%b,X)","A1b",
"LDA.B (%b),Y","B1b",
"LDA.B %b,X","B5b",
"LDA.W %w,X","BDw",
"LDA.W %w,Y","B9w",
"LDA.B %b","A5b",
"LDA.W %w","ADw",
"LDX #%b","A2b",
"LDX %b,Y","B6b",
"LDX %h,Y","BEh",
"LDX %b","A6b",
"LDX %h","AEh",
"LDX.B #%b","A2b",
"LDX.B %b,Y","B6b",
"LDX.W %w,Y","BEw",
"LDX.B %b","A6b",
"LDX.W %w","AEw",
"LDY #%b","A0b",
"LDY %b,X","B4b",
"LDY %h,X","BCh",
"LDY %b","A4b",
"LDY %h","ACh",
"LDY.B #%b","A0b",
"LDY.B %b,X","B4b",
"LDY.W %w,X","BCw",
"LDY.B %b","A4b",
"LDY.W %w","ACw",
"LSR A","4A",
"LSR %b,X","56b",
"LSR %h,X","5Eh",
"LSR %b","46b",
"LSR %h","4Eh",
"LSR.B %b,X","56b",
"LSR.W %w,X","5Ew",
"LSR.B %b","46b",
"LSR.W %w","4Ew",
"LSR","4A",
"LXA #%b","ABb",
"LXA.B #%b","ABb",
"NOP","EA",
"NOP #%b","80b",
"NOP %b,X","14b",
"NOP %h,X","1Ch",
"NOP %b","04b",
"NOP %h","0Ch",
"NOP.B #%b","80b",
"NOP.B %b,X","14b",
"NOP.W %w,X","1Cw",
"NOP.B %b","04b",
"NOP.W %w","0Cw",
"ORA #%b","09b",
"ORA (%b,X)","01b",
"ORA (%b),Y","11b",
"ORA %b,X","15b",
"ORA %h,X","1Dh",
"ORA %w,Y","19w",
"ORA %b","05b",
"ORA %h","0Dh",
"ORA.B #%b","09b",
"ORA.B (%b,X)","01b",
"ORA.B (%b),Y","11b",
"ORA.B %b,X","15b",
"ORA.W %w,X","1Dw",
"ORA.W %w,Y","19w",
"ORA.B %b","05b",
"ORA.W %w","0Dw",
"PHA","48",
"PHP","08",
"PLA","68",
"PLP","28",
"RLA (%b,X)","23b",
"RLA (%b),Y","33b",
"RLA %b,X","37b",
"RLA %h,X","3Fh",
"RLA %w,Y","3Bw",
"RLA %b","27b",
"RLA %h","2Fh",
"RLA.B (%b,X)","23b",
"RLA.B (%b),Y","33b",
"RLA.B %b,X","37b",
"RLA.W %w,X","3Fw",
"RLA.W %w,Y","3Bw",
"RLA.B %b","27b",
"RLA.W %w","2Fw",
"ROL A","2A",
"ROL %b,X","36b",
"ROL %h,X","3Eh",
"ROL %b","26b",
"ROL %h","2Eh",
"ROL.B %b,X","36b",
"ROL.W %w,X","3Ew",
"ROL.B %b","26b",
"ROL.W %w","2Ew",
"ROL","2A",
"ROR A","6A",
"ROR %b,X","76b",
"ROR %h,X","7Eh",
"ROR %b","66b",
"ROR %h","6Eh",
"ROR.B %b,X","76b",
"ROR.W %w,X","7Ew",
"ROR.B %b","66b",
"ROR.W %w","6Ew",
"ROR","6A",
"RRA (%b,X)","63b",
"RRA (%b),Y","73b",
"RRA %b,X","77b",
"RRA %h,X","7Fh",
"RRA %w,Y","7Bw",
"RRA %b","67b",
"RRA %h","6Fh",
"RRA.B (%b,X)","63b",
"RRA.B (%b),Y","73b",
"RRA.B %b,X","77b",
"RRA.W %w,X","7Fw",
"RRA.W %w,Y","7Bw",
"RRA.B %b","67b",
"RRA.W %w","6Fw",
"RTI","40",
"RTS","60",
"SAX (%b,X)","83b",
"SAX %b,Y","97b",
"SAX %b","87b",
"SAX %h","8Fh",
"SAX.B (%b,X)","83b",
"SAX.B %b,Y","97b",
"SAX.B %b","87b",
"SAX.W %w","8Fw",
"SBC #%b","E9b",
"SBC (%b,X)","E1b",
"SBC (%b),Y","F1b",
"SBC %b,X","F5b",
"SBC %h,X","FDh",
"SBC %w,Y","F9w",
"SBC %b","E5b",
"SBC %h","EDh",
"SBC.B #%b","E9b",
"SBC.B (%b,X)","E1b",
"SBC.B (%b),Y","F1b",
"SBC.B %b,X","F5b",
"SBC.W %w,X","FDw",
"SBC.W %w,Y","F9w",
"SBC.B %b","E5b",
"SBC.W %w","EDw",
"SBX #%b","CBb",
"SBX.B #%b","CBb",
"SEC","38",
"SED","F8",
"SEI","78",
"SHA (%b),Y","93b",
"SHA %w,Y","9Fw",
"SHA.B (%b),Y","93b",
"SHA.W %w,Y","9Fw",
"SHX %w,Y","9Ew",
"SHX.W %w,Y","9Ew",
"SHY %w,X","9Cw",
"SHY.W %w,X","9Cw",
"SLO (%b,X)","03b",
"SLO (%b),Y","13b",
"SLO %b,X","17b",
"SLO %h,X","1Fh",
"SLO %w,Y","1Bw",
"SLO %b","07b",
"SLO %h","0Fh",
"SLO.B (%b,X)","03b",
"SLO.B (%b),Y","13b",
"SLO.B %b,X","17b",
"SLO.W %w,X","1Fw",
"SLO.W %w,Y","1Bw",
"SLO.B %b","07b",
"SLO.W %w","0Fw",
"SRE (%b,X)","43b",
"SRE (%b),Y","53b",
"SRE %b,X","57b",
"SRE %h,X","5Fh",
"SRE %w,Y","5Bw",
"SRE %b","47b",
"SRE %h","4Fh",
"SRE.B (%b,X)","43b",
"SRE.B (%b),Y","53b",
"SRE.B %b,X","57b",
"SRE.W %w,X","5Fw",
"SRE.W %w,Y","5Bw",
"SRE.B %b","47b",
"SRE.W %w","4Fw",
"STA (%b,X)","81b",
"STA (%b),Y","91b",
"STA %b,X","95b",
"STA %h,X","9Dh",
"STA %w,Y","99w",
"STA %b","85b",
"STA %h","8Dh",
"STA.B (%b,X)","81b",
"STA.B (%b),Y","91b",
"STA.B %b,X","95b",
"STA.W %w,X","9Dw",
"STA.W %w,Y","99w",
"STA.B %b","85b",
"STA.W %w","8Dw",
"STX %b,Y","96b",
"STX %b","86b",
"STX %h","8Eh",
"STX.B %b,Y","96b",
"STX.B %b","86b",
"STX.W %w","8Ew",
"STY %b,X","94b",
"STY %b","84b",
"STY %h","8Ch",
"STY.B %b,X","94b",
"STY.B %b","84b",
"STY.W %w","8Cw",
"TAX","AA",
"TAY","A8",
"TSX","BA",
"TXA","8A",
"TXS","9A",
"TYA","98",
"TAS %w,Y","9Bw",
"TAS.B %w,Y","9Bw",
"USBC #%b","EBb",
"USBC.B #%b","EBb",
0};
static const char *const RELI[] = {
"BCC %r","90r",
"BCS %r","B0r",
"BEQ %r","F0r",
"BMI %r","30r",
"BNE %r","D0r",
"BPL %r","10r",
"BVC %r","50r",
"BVS %r","70r",
"BCC.B %r","90r",
"BCS.B %r","B0r",
"BEQ.B %r","F0r",
"BMI.B %r","30r",
"BNE.B %r","D0r",
"BPL.B %r","10r",
"BVC.B %r","50r",
"BVS.B %r","70r",
0};
