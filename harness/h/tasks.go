package h

// Tasks names the harnesses for the native replay (gen_tasks.sh).
var Tasks = map[string]func(){
	"C01_Angle":            C01_Angle,
	"C01_Atoms":            C01_Atoms,
	"C01_Big":              C01_Big,
	"C01_Dotted":           C01_Dotted,
	"C01_Equals":           C01_Equals,
	"C01_LikeEncodedWord":  C01_LikeEncodedWord,
	"C01_Long":             C01_Long,
	"C01_LongLabels":       C01_LongLabels,
	"C01_Longer_Deep":      C01_Longer_Deep,
	"C01_ManyLabels":       C01_ManyLabels,
	"C02_Addr":             C02_Addr,
	"C02_Big":              C02_Big,
	"C02_EqualsInWords":    C02_EqualsInWords,
	"C02_Generated":        C02_Generated,
	"C02_Joined":           C02_Joined,
	"C02_Long":             C02_Long,
	"C02_LongWord":         C02_LongWord,
	"C02_QuotedAny":        C02_QuotedAny,
	"C02_QuotedSpecial":    C02_QuotedSpecial,
	"C02_QuotedWords":      C02_QuotedWords,
	"C02_Seq":              C02_Seq,
	"C02_TrailingDot":      C02_TrailingDot,
	"C02_Words":            C02_Words,
	"C03_AllEscaped":       C03_AllEscaped,
	"C03_Alternate":        C03_Alternate,
	"C03_Big":              C03_Big,
	"C03_Blank":            C03_Blank,
	"C03_Empty":            C03_Empty,
	"C03_Folded":           C03_Folded,
	"C03_Generated":        C03_Generated,
	"C03_Local":            C03_Local,
	"C03_Local3":           C03_Local3,
	"C03_Long":             C03_Long,
	"C03_Name":             C03_Name,
	"C03_Name3":            C03_Name3,
	"C03_Name3_Deep":       C03_Name3_Deep,
	"C03_Name4_Deep":       C03_Name4_Deep,
	"C03_Spaces":           C03_Spaces,
	"C03_Word":             C03_Word,
	"C04_Angle":            C04_Angle,
	"C04_Bare":             C04_Bare,
	"C04_BetweenQuoted":    C04_BetweenQuoted,
	"C04_BetweenWords":     C04_BetweenWords,
	"C04_Big":              C04_Big,
	"C04_DomainDots":       C04_DomainDots,
	"C04_DoubleFold":       C04_DoubleFold,
	"C04_EmptyGroup":       C04_EmptyGroup,
	"C04_EncodedWord":      C04_EncodedWord,
	"C04_Generated":        C04_Generated,
	"C04_Group":            C04_Group,
	"C04_List":             C04_List,
	"C04_Literal":          C04_Literal,
	"C04_LocalDots":        C04_LocalDots,
	"C04_LongComment":      C04_LongComment,
	"C04_Many":             C04_Many,
	"C04_Nested":           C04_Nested,
	"C04_NoName":           C04_NoName,
	"C04_Null":             C04_Null,
	"C04_QuotedLocal":      C04_QuotedLocal,
	"C04_QuotedName":       C04_QuotedName,
	"C04_TwoBare_Deep":     C04_TwoBare_Deep,
	"C04_TwoList_Deep":     C04_TwoList_Deep,
	"C04_Two_Deep":         C04_Two_Deep,
	"C05_AroundGroup":      C05_AroundGroup,
	"C05_Big":              C05_Big,
	"C05_BigEmpty":         C05_BigEmpty,
	"C05_Empty":            C05_Empty,
	"C05_EmptyElements":    C05_EmptyElements,
	"C05_Equal":            C05_Equal,
	"C05_Generated":        C05_Generated,
	"C05_Long":             C05_Long,
	"C05_Longer_Deep":      C05_Longer_Deep,
	"C05_Repeated":         C05_Repeated,
	"C05_Seps":             C05_Seps,
	"C05_Three":            C05_Three,
	"C05_Two":              C05_Two,
	"C06_Big":              C06_Big,
	"C06_Empty":            C06_Empty,
	"C06_EmptyElements":    C06_EmptyElements,
	"C06_Generated":        C06_Generated,
	"C06_Many":             C06_Many,
	"C06_Mixed":            C06_Mixed,
	"C06_NameStays":        C06_NameStays,
	"C06_One":              C06_One,
	"C06_Two":              C06_Two,
	"C07_Address":          C07_Address,
	"C07_Again":            C07_Again,
	"C07_B":                C07_B,
	"C07_BPadded":          C07_BPadded,
	"C07_Big":              C07_Big,
	"C07_Case":             C07_Case,
	"C07_CaseB":            C07_CaseB,
	"C07_Edges":            C07_Edges,
	"C07_Generated":        C07_Generated,
	"C07_Long":             C07_Long,
	"C07_NoLocal":          C07_NoLocal,
	"C07_NotDecoded":       C07_NotDecoded,
	"C07_ObsLocal":         C07_ObsLocal,
	"C07_Places":           C07_Places,
	"C07_QHexASCII":        C07_QHexASCII,
	"C07_QHexLatin1":       C07_QHexLatin1,
	"C07_QHexUTF8":         C07_QHexUTF8,
	"C07_QPlain":           C07_QPlain,
	"C07_QUnderscore":      C07_QUnderscore,
	"C08_Big":              C08_Big,
	"C08_Comment":          C08_Comment,
	"C08_Long":             C08_Long,
	"C08_Many":             C08_Many,
	"C08_Mixed":            C08_Mixed,
	"C08_Neighbours":       C08_Neighbours,
	"C08_Runs":             C08_Runs,
	"C08_Seq":              C08_Seq,
	"C08_Touching":         C08_Touching,
	"C08_Two":              C08_Two,
	"C09_AnyCharset":       C09_AnyCharset,
	"C09_B":                C09_B,
	"C09_BadB":             C09_BadB,
	"C09_BadEncoding":      C09_BadEncoding,
	"C09_BadQ":             C09_BadQ,
	"C09_BuiltIn":          C09_BuiltIn,
	"C09_NoReader":         C09_NoReader,
	"C09_NoReaderB":        C09_NoReaderB,
	"C09_Order":            C09_Order,
	"C09_Reader":           C09_Reader,
	"C09_Rest":             C09_Rest,
	"C10_Beside":           C10_Beside,
	"C10_Big":              C10_Big,
	"C10_Many":             C10_Many,
	"C10_One":              C10_One,
	"C10_Three":            C10_Three,
	"C10_Two":              C10_Two,
	"C11_Big":              C11_Big,
	"C11_Edit":             C11_Edit,
	"C11_Families":         C11_Families,
	"C11_Hole":             C11_Hole,
	"C11_InList":           C11_InList,
	"C11_Inside":           C11_Inside,
	"C11_Stray":            C11_Stray,
	"C11_Text":             C11_Text,
	"C12_Big":              C12_Big,
	"C12_Blank":            C12_Blank,
	"C12_Bytes":            C12_Bytes,
	"C12_DateBytes":        C12_DateBytes,
	"C12_DateEdit":         C12_DateEdit,
	"C12_DateFields":       C12_DateFields,
	"C12_DateHole":         C12_DateHole,
	"C12_DateText":         C12_DateText,
	"C12_Decoded":          C12_Decoded,
	"C12_Edit":             C12_Edit,
	"C12_Hole":             C12_Hole,
	"C12_Nested":           C12_Nested,
	"C12_Readers":          C12_Readers,
	"C12_Runs":             C12_Runs,
	"C12_Text":             C12_Text,
	"C13_All":              C13_All,
	"C13_DayDigits":        C13_DayDigits,
	"C13_Leap":             C13_Leap,
	"C13_Months":           C13_Months,
	"C13_Offset":           C13_Offset,
	"C13_Spelled":          C13_Spelled,
	"C14_Fields":           C14_Fields,
	"C14_Forms":            C14_Forms,
	"C14_Leap":             C14_Leap,
	"C14_Turn":             C14_Turn,
	"C14_Window":           C14_Window,
	"C15_All":              C15_All,
	"C15_Difference":       C15_Difference,
	"C15_Forms":            C15_Forms,
	"C15_Hours":            C15_Hours,
	"C16_Forms":            C16_Forms,
	"C16_Names":            C16_Names,
	"C16_NoZone":           C16_NoZone,
	"C17_After":            C17_After,
	"C17_Edit":             C17_Edit,
	"C17_Families":         C17_Families,
	"C17_Hole":             C17_Hole,
	"C17_Names":            C17_Names,
	"C17_Text":             C17_Text,
	"C17_TwoHoles":         C17_TwoHoles,
	"C18_AllGaps":          C18_AllGaps,
	"C18_Big":              C18_Big,
	"C18_DayOfWeek":        C18_DayOfWeek,
	"C18_Digits":           C18_Digits,
	"C18_Gaps":             C18_Gaps,
	"C18_Generated":        C18_Generated,
	"C18_Short":            C18_Short,
	"C18_YearComment":      C18_YearComment,
	"C19_After":            C19_After,
	"C19_Between":          C19_Between,
	"C19_Clock":            C19_Clock,
	"C19_DateBetween":      C19_DateBetween,
	"C19_Many":             C19_Many,
	"C19_Mixed":            C19_Mixed,
	"C19_Own":              C19_Own,
	"C19_Reader":           C19_Reader,
	"C20_Around":           C20_Around,
	"C20_BeforePort":       C20_BeforePort,
	"C20_Big":              C20_Big,
	"C20_Generated":        C20_Generated,
	"C20_Group":            C20_Group,
	"C20_List":             C20_List,
	"C20_ListOfThree_Deep": C20_ListOfThree_Deep,
	"C20_Literal":          C20_Literal,
	"C20_LiteralPort":      C20_LiteralPort,
	"C20_Long":             C20_Long,
	"C20_NoPort":           C20_NoPort,
	"C20_Port":             C20_Port,
	"C20_Text":             C20_Text,
	"C21_Big":              C21_Big,
	"C21_Empty":            C21_Empty,
	"C21_EmptyInGroup":     C21_EmptyInGroup,
	"C21_Generated":        C21_Generated,
	"C21_GeneratedList":    C21_GeneratedList,
	"C21_LocalInList":      C21_LocalInList,
	"C21_LocalMany":        C21_LocalMany,
	"C21_LocalSpaced":      C21_LocalSpaced,
	"C21_LocalThree":       C21_LocalThree,
	"C21_LocalThree_Deep":  C21_LocalThree_Deep,
	"C21_LocalTwo":         C21_LocalTwo,
	"C21_LongRoute":        C21_LongRoute,
	"C21_NamePeriods":      C21_NamePeriods,
	"C21_OnlyEmpty":        C21_OnlyEmpty,
	"C21_Route":            C21_Route,
	"C21_TwoRoutes":        C21_TwoRoutes,
	"C22_AddressAsName":    C22_AddressAsName,
	"C22_Big":              C22_Big,
	"C22_Digits":           C22_Digits,
	"C22_Generated":        C22_Generated,
	"C22_NoSemicolon":      C22_NoSemicolon,
	"C22_Null":             C22_Null,
	"C22_QuotedGroup":      C22_QuotedGroup,
	"C22_Trailing":         C22_Trailing,
	"C22_Unspaced":         C22_Unspaced,
	"C23_Control":          C23_Control,
	"C23_Domain":           C23_Domain,
	"C23_List":             C23_List,
	"C23_Local":            C23_Local,
	"C23_LocalUnicode":     C23_LocalUnicode,
	"C23_Long":             C23_Long,
	"C23_Lookalike":        C23_Lookalike,
	"C23_Mixed":            C23_Mixed,
	"C23_Mixed2_Deep":      C23_Mixed2_Deep,
	"C23_Printable":        C23_Printable,
	"C23_Unicode":          C23_Unicode,
	"C24_Edit":             C24_Edit,
	"C24_Hole":             C24_Hole,
	"C24_More":             C24_More,
	"C24_One":              C24_One,
	"C24_Text":             C24_Text,
	"C24_Two":              C24_Two,
	"C25_Edit":             C25_Edit,
	"C25_Fields":           C25_Fields,
	"C25_Generated":        C25_Generated,
	"C25_Hole":             C25_Hole,
	"C25_Spelled":          C25_Spelled,
	"C25_Text":             C25_Text,
	"C90_Dates":            C90_Dates,
	"C90_Generated":        C90_Generated,
	"C90_Lists":            C90_Lists,
	"C90_Mixed":            C90_Mixed,
	"C90_Reader":           C90_Reader,
}
