from chk_lexer import check
