SPECIFICATION Spec
CONSTANTS Chars = {1, 2, 3}
MaxQuery = 3
MaxN = 2
MaxWord = 5
INVARIANTS Sound KeepsLanguage
CHECK_DEADLOCK FALSE
