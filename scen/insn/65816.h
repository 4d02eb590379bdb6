/* 65816: instruction text and encoding */
static const char *const INSN[] = {
"ADC #%b","69b",
"!ADC (<%b)","72b",
"ADC (%b)","72b",
"!ADC (<%b,X)","61b",
"ADC (%b,X)","61b",
"!ADC (<%b),Y","71b",
"ADC (%b),Y","71b",
"!ADC (<%b,S),Y","73b",
"ADC (%b,S),Y","73b",
"!ADC [<%b],Y","77b",
"ADC [%b],Y","77b",
"!ADC [<%b]","67b",
"ADC [%b]","67b",
"!ADC <%b","65b",
"!ADC |%w","6Dw",
"!ADC >%l","6Fl",
"!ADC <%b,X","75b",
"!ADC |%w,X","7Dw",
"!ADC >%l,X","7Fl",
"!ADC |%w,Y","79w",
"!ADC <%b,S","63b",
"ADC %b","65b",
"ADC %h","6Dh",
"ADC %l","6Fl",
"ADC %b,X","75b",
"ADC %h,X","7Dh",
"ADC %l,X","7Fl",
"ADC %w,Y","79w",
"ADC %b,S","63b",
"ADC.B #%b","69b",
"ADC.W #%w","69w",
"ADC.B (%b)","72b",
"ADC.B [%b]","67b",
"ADC.B (%b,X)","61b",
"ADC.B (%b),Y","71b",
"ADC.B (%b,S),Y","73b",
"ADC.B [%b],Y","77b",
"ADC.B %b","65b",
"ADC.W %w","6Dw",
"ADC.L %l","6Fl",
"ADC.B %b,X","75b",
"ADC.W %w,X","7Dw",
"ADC.L %l,X","7Fl",
"ADC.W %w,Y","79w",
"ADC.B %b,S","63b",
"AND #%b","29b",
"!AND (<%b)","32b",
"AND (%b)","32b",
"!AND (<%b,X)","21b",
"AND (%b,X)","21b",
"!AND (<%b),Y","31b",
"AND (%b),Y","31b",
"!AND (<%b,S),Y","33b",
"AND (%b,S),Y","33b",
"!AND [<%b],Y","37b",
"AND [%b],Y","37b",
"!AND [<%b]","27b",
"AND [%b]","27b",
"!AND <%b","25b",
"!AND |%w","2Dw",
"!AND >%l","2Fl",
"!AND <%b,X","35b",
"!AND |%w,X","3Dw",
"!AND >%l,X","3Fl",
"!AND |%w,Y","39w",
"!AND <%b,S","23b",
"AND %b","25b",
"AND %h","2Dh",
"AND %l","2Fl",
"AND %b,X","35b",
"AND %h,X","3Dh",
"AND %l,X","3Fl",
"AND %w,Y","39w",
"AND %b,S","23b",
"AND.B #%b","29b",
"AND.W #%w","29w",
"AND.B (%b)","32b",
"AND.B [%b]","27b",
"AND.B (%b,X)","21b",
"AND.B (%b),Y","31b",
"AND.B (%b,S),Y","33b",
"AND.B [%b],Y","37b",
"AND.B %b","25b",
"AND.W %w","2Dw",
"AND.L %l","2Fl",
"AND.B %b,X","35b",
"AND.W %w,X","3Dw",
"AND.L %l,X","3Fl",
"AND.W %w,Y","39w",
"AND.B %b,S","23b",
"ASL A","0A",
"!ASL |%w","0Ew",
"!ASL <%b","06b",
"!ASL <%b,X","16b",
"!ASL |%w,X","1Ew",
"ASL %b","06b",
"ASL %h","0Eh",
"ASL %b,X","16b",
"ASL %h,X","1Eh",
"ASL","0A",
"ASL.B %b","06b",
"ASL.W %w","0Ew",
"ASL.B %b,X","16b",
"ASL.W %w,X","1Ew",
"BIT #%b","89b",
"!BIT <%b","24b",
"!BIT |%w","2Cw",
"!BIT <%b,X","34b",
"!BIT |%w,X","3Cw",
"BIT %b","24b",
"BIT %h","2Ch",
"BIT %b,X","34b",
"BIT %h,X","3Ch",
"BIT.B #%b","89b",
"BIT.W #%w","89w",
"BIT.B %b","24b",
"BIT.W %w","2Cw",
"BIT.B %b,X","34b",
"BIT.W %w,X","3Cw",
"!BRK <%b","00b",
"BRK %b","00b",
"BRK.B %b","00b",
"BRK","0000",
"CLC","18",
"CLD","D8",
"CLI","58",
"CLV","B8",
"CMP #%b","C9b",
"!CMP (<%b)","D2b",
"CMP (%b)","D2b",
"!CMP [<%b]","C7b",
"CMP [%b]","C7b",
"!CMP (<%b,X)","C1b",
"CMP (%b,X)","C1b",
"!CMP (<%b),Y","D1b",
"CMP (%b),Y","D1b",
"!CMP (<%b,S),Y","D3b",
"CMP (%b,S),Y","D3b",
"!CMP [<%b],Y","D7b",
"CMP [%b],Y","D7b",
"!CMP |%w,Y","D9w",
"!CMP <%b","C5b",
"!CMP |%w","CDw",
"!CMP >%l","CFl",
"!CMP <%b,S","C3b",
"!CMP <%b,X","D5b",
"!CMP |%w,X","DDw",
"!CMP >%l,X","DFl",
"CMP %b","C5b",
"CMP %h","CDh",
"CMP %l","CFl",
"CMP %b,X","D5b",
"CMP %h,X","DDh",
"CMP %l,X","DFl",
"CMP %w,Y","D9w",
"CMP %b,S","C3b",
"CMP.B #%b","C9b",
"CMP.W #%w","C9w",
"CMP.B (%b)","D2b",
"CMP.B [%b]","C7b",
"CMP.B (%b,X)","C1b",
"CMP.B (%b),Y","D1b",
"CMP.B (%b,S),Y","D3b",
"CMP.B [%b],Y","D7b",
"CMP.B %b","C5b",
"CMP.W %w","CDw",
"CMP.L %l","CFl",
"CMP.B %b,X","D5b",
"CMP.W %w,X","DDw",
"CMP.L %l,X","DFl",
"CMP.W %w,Y","D9w",
"CMP.B %b,S","C3b",
"!COP <%b","02b",
"COP %b","02b",
"COP.B %b","02b",
"COP","0002",
"CPX #%b","E0b",
"!CPX <%b","E4b",
"!CPX |%w","ECw",
"CPX %b","E4b",
"CPX %h","ECh",
"CPX.B #%b","E0b",
"CPX.W #%w","E0w",
"CPX.B %b","E4b",
"CPX.W %w","ECw",
"CPY #%b","C0b",
"!CPY <%b","C4b",
"!CPY |%w","CCw",
"CPY %b","C4b",
"CPY %h","CCh",
"CPY.B #%b","C0b",
"CPY.W #%w","C0w",
"CPY.B %b","C4b",
"CPY.W %w","CCw",
"DEA","3A",
"DEX","CA",
"DEY","88",
"DEC A","3A",
"!DEC <%b","C6b",
"!DEC |%w","CEw",
"!DEC <%b,X","D6b",
"!DEC |%w,X","DEw",
"DEC %b","C6b",
"DEC %h","CEh",
"DEC %b,X","D6b",
"DEC %h,X","DEh",
"DEC.B %b","C6b",
"DEC.W %w","CEw",
"DEC.B %b,X","D6b",
"DEC.W %w,X","DEw",
"EOR #%b","49b",
"!EOR (<%b)","52b",
"EOR (%b)","52b",
"!EOR [<%b]","47b",
"EOR [%b]","47b",
"!EOR (<%b,X)","41b",
"EOR (%b,X)","41b",
"!EOR (<%b),Y","51b",
"EOR (%b),Y","51b",
"!EOR (<%b,S),Y","53b",
"EOR (%b,S),Y","53b",
"!EOR [<%b],Y","57b",
"EOR [%b],Y","57b",
"!EOR <%b","45b",
"!EOR |%w","4Dw",
"!EOR >%l","4Fl",
"!EOR <%b,X","55b",
"!EOR |%w,Y","59w",
"!EOR <%b,S","43b",
"!EOR |%w,X","5Dw",
"!EOR >%l,X","5Fl",
"EOR %b","45b",
"EOR %h","4Dh",
"EOR %l","4Fl",
"EOR %b,X","55b",
"EOR %h,X","5Dh",
"EOR %l,X","5Fl",
"EOR %w,Y","59w",
"EOR %b,S","43b",
"EOR.B #%b","49b",
"EOR.W #%w","49w",
"EOR.B (%b)","52b",
"EOR.B [%b]","47b",
"EOR.B (%b,X)","41b",
"EOR.B (%b),Y","51b",
"EOR.B (%b,S),Y","53b",
"EOR.B [%b],Y","57b",
"EOR.B %b","45b",
"EOR.W %w","4Dw",
"EOR.L %l","4Fl",
"EOR.B %b,X","55b",
"EOR.W %w,X","5Dw",
"EOR.L %l,X","5Fl",
"EOR.W %w,Y","59w",
"EOR.B %b,S","43b",
"INA","1A",
"INX","E8",
"INY","C8",
"INC A","1A",
"!INC <%b","E6b",
"!INC |%w","EEw",
"!INC <%b,X","F6b",
"!INC |%w,X","FEw",
"INC %b","E6b",
"INC %h","EEh",
"INC %b,X","F6b",
"INC %h,X","FEh",
"INC.B %b","E6b",
"INC.W %w","EEw",
"INC.B %b,X","F6b",
"INC.W %w,X","FEw",
"!JMP |%w","4Cw",
"!JMP >%l","5Cl",
"!JML >%l","5Cl",
"!JMP (|%w)","6Cw",
"!JMP (|%w,X)","7Cw",
"JMP (%w)","6Cw",
"!JMP [|%w]","DCw",
"JML [%w]","DCw",
"JMP (%w,X)","7Cw",
"JMP %w","4Cw",
"JMP %l","5Cl",
"JML %l","5Cl",
"JMP.W (%w)","6Cw",
"JMP.W (%w,X)","7Cw",
"JMP.W [%w]","DCw",
"JML.W [%w]","DCw",
"JMP.W %w","4Cw",
"JMP.L %l","5Cl",
"JML.L %l","5Cl",
"!JSR (|%w,X)","FCw",
"JSR (%w,X)","FCw",
"!JSR |%w","20w",
"!JSR >%l","22l",
"!JSL >%l","22l",
"JSR %w","20w",
"JSR %l","22l",
"JSL %l","22l",
"JSR.W (%w,X)","FCw",
"JSR.W %w","20w",
"JSR.L %l","22l",
"JSL.L %l","22l",
"LDA #%b","A9b",
"!LDA (<%b)","B2b",
"LDA (%b)","B2b",
"!LDA [<%b]","A7b",
"LDA [%b]","A7b",
"!LDA (<%b,X)","A1b",
"LDA (%b,X)","A1b",
"!LDA (<%b),Y","B1b",
"LDA (%b),Y","B1b",
"!LDA (<%b,S),Y","B3b",
"LDA (%b,S),Y","B3b",
"!LDA [<%b],Y","B7b",
"LDA [%b],Y","B7b",
"!LDA <%b","A5b",
"!LDA |%w","ADw",
"!LDA >%l","AFl",
"!LDA <%b,X","B5b",
"!LDA |%w,X","BDw",
"!LDA >%l,X","BFl",
"!LDA |%w,Y","B9w",
"!LDA <%b,S","A3b",
"LDA %b","A5b",
"LDA %h","ADh",
"LDA %l","AFl",
"LDA %b,X","B5b",
"LDA %h,X","BDh",
"LDA %l,X","BFl",
"LDA %w,Y","B9w",
"LDA %b,S","A3b",
"LDA.B #%b","A9b",
"LDA.W #%w","A9w",
"LDA.B (%b)","B2b",
"LDA.B [%b]","A7b",
"LDA.B (%b,X)","A1b",
"LDA.B (%b),Y","B1b",
"LDA.B (%b,S),Y","B3b",
"LDA.B [%b],Y","B7b",
"LDA.B %b","A5b",
"LDA.W %w","ADw",
"LDA.L %l","AFl",
"LDA.B %b,X","B5b",
"LDA.W %w,X","BDw",
"LDA.L %l,X","BFl",
"LDA.W %w,Y","B9w",
"LDA.B %b,S","A3b",
"LDX #%b","A2b",
"!LDX <%b","A6b",
"!LDX |%w","AEw",
"!LDX <%b,Y","B6b",
"!LDX |%w,Y","BEw",
"LDX %b","A6b",
"LDX %h","AEh",
"LDX %b,Y","B6b",
"LDX %h,Y","BEh",
"LDX.B #%b","A2b",
"LDX.W #%w","A2w",
"LDX.B %b","A6b",
"LDX.W %w","AEw",
"LDX.B %b,Y","B6b",
"LDX.W %w,Y","BEw",
"LDY #%b","A0b",
"!LDY <%b","A4b",
"!LDY |%w","ACw",
"!LDY <%b,X","B4b",
"!LDY |%w,X","BCw",
"LDY %b","A4b",
"LDY %h","ACh",
"LDY %b,X","B4b",
"LDY %h,X","BCh",
"LDY.B #%b","A0b",
"LDY.W #%w","A0w",
"LDY.B %b","A4b",
"LDY.W %w","ACw",
"LDY.B %b,X","B4b",
"LDY.W %w,X","BCw",
"LSR A","4A",
"!LSR <%b","46b",
"!LSR |%w","4Ew",
"!LSR <%b,X","56b",
"!LSR |%w,X","5Ew",
"LSR %b","46b",
"LSR %h","4Eh",
"LSR %b,X","56b",
"LSR %h,X","5Eh",
"LSR","4A",
"LSR.B %b","46b",
"LSR.W %w","4Ew",
"LSR.B %b,X","56b",
"LSR.W %w,X","5Ew",
"!MVN <%b,<%c","54cb",
"!MVP <%b,<%c","44cb",
"MVN %b,%c","54cb",
"MVP %b,%c","44cb",
"MVN %w","54w",
"MVP %w","44w",
"MVN.B %b,%c","54cb",
"MVP.B %b,%c","44cb",
"MVN.W %w","54w",
"MVP.W %w","44w",
"NOP","EA",
"ORA #%b","09b",
"!ORA (<%b)","12b",
"ORA (%b)","12b",
"!ORA [<%b]","07b",
"ORA [%b]","07b",
"!ORA (<%b,X)","01b",
"ORA (%b,X)","01b",
"!ORA (<%b),Y","11b",
"ORA (%b),Y","11b",
"!ORA (<%b,S),Y","13b",
"ORA (%b,S),Y","13b",
"!ORA [<%b],Y","17b",
"ORA [%b],Y","17b",
"!ORA <%b","05b",
"!ORA |%w","0Dw",
"!ORA >%l","0Fl",
"!ORA <%b,X","15b",
"!ORA |%w,X","1Dw",
"!ORA >%l,X","1Fl",
"!ORA |%w,Y","19w",
"!ORA <%b,S","03b",
"ORA %b","05b",
"ORA %h","0Dh",
"ORA %l","0Fl",
"ORA %b,X","15b",
"ORA %h,X","1Dh",
"ORA %l,X","1Fl",
"ORA %w,Y","19w",
"ORA %b,S","03b",
"ORA.B #%b","09b",
"ORA.W #%w","09w",
"ORA.B (%b)","12b",
"ORA.B [%b]","07b",
"ORA.B (%b,X)","01b",
"ORA.B (%b),Y","11b",
"ORA.B (%b,S),Y","13b",
"ORA.B [%b],Y","17b",
"ORA.B %b","05b",
"ORA.W %w","0Dw",
"ORA.L %l","0Fl",
"ORA.B %b,X","15b",
"ORA.W %w,X","1Dw",
"ORA.L %l,X","1Fl",
"ORA.W %w,Y","19w",
"ORA.B %b,S","03b",
"!PEA |%w","F4w",
"PEA %w","F4w",
"!PEI (<%b)","D4b",
"PEI (%b)","D4b",
"PEA.W %w","F4w",
"PEI.B (%b)","D4b",
"PHA","48",
"PHP","08",
"PHX","DA",
"PHY","5A",
"PLA","68",
"PLP","28",
"PLX","FA",
"PLY","7A",
"PHB","8B",
"PHD","0B",
"PHK","4B",
"PLB","AB",
"PLD","2B",
"REP #%d","C2d",
"REP.B #%d","C2d",
"ROL A","2A",
"!ROL <%b","26b",
"!ROL |%w","2Ew",
"!ROL <%b,X","36b",
"!ROL |%w,X","3Ew",
"ROL %b","26b",
"ROL %h","2Eh",
"ROL %b,X","36b",
"ROL %h,X","3Eh",
"ROL","2A",
"ROL.B %b","26b",
"ROL.W %w","2Ew",
"ROL.B %b,X","36b",
"ROL.W %w,X","3Ew",
"ROR A","6A",
"!ROR <%b","66b",
"!ROR |%w","6Ew",
"!ROR <%b,X","76b",
"!ROR |%w,X","7Ew",
"ROR %b","66b",
"ROR %h","6Eh",
"ROR %b,X","76b",
"ROR %h,X","7Eh",
"ROR","6A",
"ROR.B %b","66b",
"ROR.W %w","6Ew",
"ROR.B %b,X","76b",
"ROR.W %w,X","7Ew",
"RTI","40",
"RTL","6B",
"RTS","60",
"SEC","38",
"SED","F8",
"SEI","78",
"SBC #%b","E9b",
"!SBC (<%b)","F2b",
"SBC (%b)","F2b",
"!SBC [<%b]","E7b",
"SBC [%b]","E7b",
"!SBC (<%b,X)","E1b",
"SBC (%b,X)","E1b",
"!SBC (<%b),Y","F1b",
"SBC (%b),Y","F1b",
"!SBC (<%b,S),Y","F3b",
"SBC (%b,S),Y","F3b",
"!SBC [<%b],Y","F7b",
"SBC [%b],Y","F7b",
"!SBC <%b","E5b",
"!SBC |%w","EDw",
"!SBC >%l","EFl",
"!SBC <%b,X","F5b",
"!SBC |%w,X","FDw",
"!SBC >%l,X","FFl",
"!SBC |%w,Y","F9w",
"!SBC <%b,S","E3b",
"SBC %b","E5b",
"SBC %h","EDh",
"SBC %l","EFl",
"SBC %b,X","F5b",
"SBC %h,X","FDh",
"SBC %l,X","FFl",
"SBC %w,Y","F9w",
"SBC %b,S","E3b",
"SBC.B #%b","E9b",
"SBC.W #%w","E9w",
"SBC.B (%b)","F2b",
"SBC.B [%b]","E7b",
"SBC.B (%b,X)","E1b",
"SBC.B (%b),Y","F1b",
"SBC.B (%b,S),Y","F3b",
"SBC.B [%b],Y","F7b",
"SBC.B %b","E5b",
"SBC.W %w","EDw",
"SBC.L %l","EFl",
"SBC.B %b,X","F5b",
"SBC.W %w,X","FDw",
"SBC.L %l,X","FFl",
"SBC.W %w,Y","F9w",
"SBC.B %b,S","E3b",
"SEP #%d","E2d",
"SEP.B #%d","E2d",
"!STA (<%b)","92b",
"STA (%b)","92b",
"!STA [<%b]","87b",
"STA [%b]","87b",
"!STA (<%b,X)","81b",
"STA (%b,X)","81b",
"!STA (<%b),Y","91b",
"STA (%b),Y","91b",
"!STA (<%b,S),Y","93b",
"STA (%b,S),Y","93b",
"!STA [<%b],Y","97b",
"STA [%b],Y","97b",
"!STA <%b","85b",
"!STA |%w","8Dw",
"!STA >%l","8Fl",
"!STA <%b,X","95b",
"!STA |%w,X","9Dw",
"!STA >%l,X","9Fl",
"!STA |%w,Y","99w",
"!STA <%b,S","83b",
"STA %b","85b",
"STA %h","8Dh",
"STA %l","8Fl",
"STA %b,X","95b",
"STA %h,X","9Dh",
"STA %l,X","9Fl",
"STA %w,Y","99w",
"STA %b,S","83b",
"STA.B (%b)","92b",
"STA.B [%b]","87b",
"STA.B (%b,X)","81b",
"STA.B (%b),Y","91b",
"STA.B (%b,S),Y","93b",
"STA.B [%b],Y","97b",
"STA.B %b","85b",
"STA.W %w","8Dw",
"STA.L %l","8Fl",
"STA.B %b,X","95b",
"STA.W %w,X","9Dw",
"STA.L %l,X","9Fl",
"STA.W %w,Y","99w",
"STA.B %b,S","83b",
"STP","DB",
"!STX <%b","86b",
"!STX |%w","8Ew",
"STX %b","86b",
"STX %h","8Eh",
"STX %b,Y","96b",
"STX.B %b","86b",
"STX.W %w","8Ew",
"STX.B %b,Y","96b",
"!STY <%b","84b",
"!STY |%w","8Cw",
"STY %b","84b",
"STY %h","8Ch",
"STY %b,X","94b",
"STY.B %b","84b",
"STY.W %w","8Cw",
"STY.B %b,X","94b",
"!STZ <%b","64b",
"!STZ |%w","9Cw",
"!STZ <%b,X","74b",
"!STZ |%w,X","9Ew",
"STZ %b","64b",
"STZ %h","9Ch",
"STZ %b,X","74b",
"STZ %h,X","9Eh",
"STZ.B %b","64b",
"STZ.W %w","9Cw",
"STZ.B %b,X","74b",
"STZ.W %w,X","9Ew",
"SWA","EB",
"TAX","AA",
"TAY","A8",
"TXA","8A",
"TYA","98",
"TSX","BA",
"TXS","9A",
"TXY","9B",
"TYX","BB",
"TCD","5B",
"TAD","5B",
"TDC","7B",
"TDA","7B",
"TCS","1B",
"TAS","1B",
"TSC","3B",
"TSA","3B",
"!TRB <%b","14b",
"!TRB |%w","1Cw",
"!TSB <%b","04b",
"!TSB |%w","0Cw",
"TRB %b","14b",
"TRB %h","1Ch",
"TSB %b","04b",
"TSB %h","0Ch",
"TRB.B %b","14b",
"TRB.W %w","1Cw",
"TSB.B %b","04b",
"TSB.W %w","0Cw",
"WAI","CB",
"WDM %b","42b",
"XBA","EB",
"XCE","FB",
0};
static const char *const RELI[] = {
"BCC <%r","90r",
"BCS <%r","B0r",
"BEQ <%r","F0r",
"BNE <%r","D0r",
"BMI <%r","30r",
"BPL <%r","10r",
"BVC <%r","50r",
"BVS <%r","70r",
"BRA <%r","80r",
"BRL |%R","82R",
"BCC %r","90r",
"BCS %r","B0r",
"BEQ %r","F0r",
"BNE %r","D0r",
"BMI %r","30r",
"BPL %r","10r",
"BVC %r","50r",
"BVS %r","70r",
"BRA %r","80r",
"BRL %R","82R",
"BCC.B %r","90r",
"BCS.B %r","B0r",
"BEQ.B %r","F0r",
"BNE.B %r","D0r",
"BMI.B %r","30r",
"BPL.B %r","10r",
"BVC.B %r","50r",
"BVS.B %r","70r",
"BRA.B %r","80r",
"BRL.W %R","82R",
"PER |%R","62R",
"PER %R","62R",
"PER.W %R","62R",
0};
