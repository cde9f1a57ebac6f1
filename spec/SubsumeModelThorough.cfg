SPECIFICATION Spec
CONSTANTS Chars = {1, 2, 3}
MaxQuery = 4
MaxN = 3
MaxWord = 5
INVARIANTS Sound KeepsLanguage
CHECK_DEADLOCK FALSE
