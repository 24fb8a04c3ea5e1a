// Two copies of the library are linked; the second one computes reference answers. Every call of the public interface is sent to
// the one selected by secondLib.
#pragma once
#ifdef SECOND
extern "C" {
extern decltype(voikkoAnalyzeWordCstr) voikkoAnalyzeWordCstr_second;
extern decltype(voikkoAnalyzeWordUcs4) voikkoAnalyzeWordUcs4_second;
extern decltype(voikkoFreeCstr) voikkoFreeCstr_second;
extern decltype(voikkoFreeCstrArray) voikkoFreeCstrArray_second;
extern decltype(voikkoFreeErrorMessageCstr) voikkoFreeErrorMessageCstr_second;
extern decltype(voikkoFreeGrammarError) voikkoFreeGrammarError_second;
extern decltype(voikkoGetAttributeValues) voikkoGetAttributeValues_second;
extern decltype(voikkoGetGrammarErrorCode) voikkoGetGrammarErrorCode_second;
extern decltype(voikkoGetGrammarErrorLength) voikkoGetGrammarErrorLength_second;
extern decltype(voikkoGetGrammarErrorShortDescription) voikkoGetGrammarErrorShortDescription_second;
extern decltype(voikkoGetGrammarErrorStartPos) voikkoGetGrammarErrorStartPos_second;
extern decltype(voikkoGetGrammarErrorSuggestions) voikkoGetGrammarErrorSuggestions_second;
extern decltype(voikkoGetVersion) voikkoGetVersion_second;
extern decltype(voikkoHyphenateCstr) voikkoHyphenateCstr_second;
extern decltype(voikkoHyphenateUcs4) voikkoHyphenateUcs4_second;
extern decltype(voikkoInit) voikkoInit_second;
extern decltype(voikkoInsertHyphensCstr) voikkoInsertHyphensCstr_second;
extern decltype(voikkoListSupportedGrammarCheckingLanguages) voikkoListSupportedGrammarCheckingLanguages_second;
extern decltype(voikkoListSupportedHyphenationLanguages) voikkoListSupportedHyphenationLanguages_second;
extern decltype(voikkoListSupportedSpellingLanguages) voikkoListSupportedSpellingLanguages_second;
extern decltype(voikkoNextGrammarErrorCstr) voikkoNextGrammarErrorCstr_second;
extern decltype(voikkoNextGrammarErrorUcs4) voikkoNextGrammarErrorUcs4_second;
extern decltype(voikkoNextSentenceStartCstr) voikkoNextSentenceStartCstr_second;
extern decltype(voikkoNextSentenceStartUcs4) voikkoNextSentenceStartUcs4_second;
extern decltype(voikkoNextTokenCstr) voikkoNextTokenCstr_second;
extern decltype(voikkoNextTokenUcs4) voikkoNextTokenUcs4_second;
extern decltype(voikkoSetBooleanOption) voikkoSetBooleanOption_second;
extern decltype(voikkoSetIntegerOption) voikkoSetIntegerOption_second;
extern decltype(voikkoSpellCstr) voikkoSpellCstr_second;
extern decltype(voikkoSpellUcs4) voikkoSpellUcs4_second;
extern decltype(voikkoSuggestCstr) voikkoSuggestCstr_second;
extern decltype(voikkoSuggestUcs4) voikkoSuggestUcs4_second;
extern decltype(voikkoTerminate) voikkoTerminate_second;
extern decltype(voikko_analyze_word_cstr) voikko_analyze_word_cstr_second;
extern decltype(voikko_analyze_word_ucs4) voikko_analyze_word_ucs4_second;
extern decltype(voikko_dict_description) voikko_dict_description_second;
extern decltype(voikko_dict_language) voikko_dict_language_second;
extern decltype(voikko_dict_script) voikko_dict_script_second;
extern decltype(voikko_dict_variant) voikko_dict_variant_second;
extern decltype(voikko_free_dicts) voikko_free_dicts_second;
extern decltype(voikko_free_hyphenate) voikko_free_hyphenate_second;
extern decltype(voikko_free_mor_analysis) voikko_free_mor_analysis_second;
extern decltype(voikko_free_mor_analysis_value_cstr) voikko_free_mor_analysis_value_cstr_second;
extern decltype(voikko_free_suggest_cstr) voikko_free_suggest_cstr_second;
extern decltype(voikko_free_suggest_ucs4) voikko_free_suggest_ucs4_second;
extern decltype(voikko_hyphenate_cstr) voikko_hyphenate_cstr_second;
extern decltype(voikko_hyphenate_ucs4) voikko_hyphenate_ucs4_second;
extern decltype(voikko_init) voikko_init_second;
extern decltype(voikko_init_with_path) voikko_init_with_path_second;
extern decltype(voikko_list_dicts) voikko_list_dicts_second;
extern decltype(voikko_mor_analysis_keys) voikko_mor_analysis_keys_second;
extern decltype(voikko_mor_analysis_value_cstr) voikko_mor_analysis_value_cstr_second;
extern decltype(voikko_mor_analysis_value_ucs4) voikko_mor_analysis_value_ucs4_second;
extern decltype(voikko_next_grammar_error_cstr) voikko_next_grammar_error_cstr_second;
extern decltype(voikko_next_grammar_error_ucs4) voikko_next_grammar_error_ucs4_second;
extern decltype(voikko_next_sentence_start_cstr) voikko_next_sentence_start_cstr_second;
extern decltype(voikko_next_sentence_start_ucs4) voikko_next_sentence_start_ucs4_second;
extern decltype(voikko_next_token_cstr) voikko_next_token_cstr_second;
extern decltype(voikko_set_bool_option) voikko_set_bool_option_second;
extern decltype(voikko_set_int_option) voikko_set_int_option_second;
extern decltype(voikko_set_string_option) voikko_set_string_option_second;
extern decltype(voikko_spell_cstr) voikko_spell_cstr_second;
extern decltype(voikko_spell_ucs4) voikko_spell_ucs4_second;
extern decltype(voikko_suggest_cstr) voikko_suggest_cstr_second;
extern decltype(voikko_suggest_ucs4) voikko_suggest_ucs4_second;
extern decltype(voikko_terminate) voikko_terminate_second;
}
#define voikkoAnalyzeWordCstr (*(secondLib ? &voikkoAnalyzeWordCstr_second : &voikkoAnalyzeWordCstr))
#define voikkoAnalyzeWordUcs4 (*(secondLib ? &voikkoAnalyzeWordUcs4_second : &voikkoAnalyzeWordUcs4))
#define voikkoFreeCstr (*(secondLib ? &voikkoFreeCstr_second : &voikkoFreeCstr))
#define voikkoFreeCstrArray (*(secondLib ? &voikkoFreeCstrArray_second : &voikkoFreeCstrArray))
#define voikkoFreeErrorMessageCstr (*(secondLib ? &voikkoFreeErrorMessageCstr_second : &voikkoFreeErrorMessageCstr))
#define voikkoFreeGrammarError (*(secondLib ? &voikkoFreeGrammarError_second : &voikkoFreeGrammarError))
#define voikkoGetAttributeValues (*(secondLib ? &voikkoGetAttributeValues_second : &voikkoGetAttributeValues))
#define voikkoGetGrammarErrorCode (*(secondLib ? &voikkoGetGrammarErrorCode_second : &voikkoGetGrammarErrorCode))
#define voikkoGetGrammarErrorLength (*(secondLib ? &voikkoGetGrammarErrorLength_second : &voikkoGetGrammarErrorLength))
#define voikkoGetGrammarErrorShortDescription (*(secondLib ? &voikkoGetGrammarErrorShortDescription_second : &voikkoGetGrammarErrorShortDescription))
#define voikkoGetGrammarErrorStartPos (*(secondLib ? &voikkoGetGrammarErrorStartPos_second : &voikkoGetGrammarErrorStartPos))
#define voikkoGetGrammarErrorSuggestions (*(secondLib ? &voikkoGetGrammarErrorSuggestions_second : &voikkoGetGrammarErrorSuggestions))
#define voikkoGetVersion (*(secondLib ? &voikkoGetVersion_second : &voikkoGetVersion))
#define voikkoHyphenateCstr (*(secondLib ? &voikkoHyphenateCstr_second : &voikkoHyphenateCstr))
#define voikkoHyphenateUcs4 (*(secondLib ? &voikkoHyphenateUcs4_second : &voikkoHyphenateUcs4))
#define voikkoInit (*(secondLib ? &voikkoInit_second : &voikkoInit))
#define voikkoInsertHyphensCstr (*(secondLib ? &voikkoInsertHyphensCstr_second : &voikkoInsertHyphensCstr))
#define voikkoListSupportedGrammarCheckingLanguages (*(secondLib ? &voikkoListSupportedGrammarCheckingLanguages_second : &voikkoListSupportedGrammarCheckingLanguages))
#define voikkoListSupportedHyphenationLanguages (*(secondLib ? &voikkoListSupportedHyphenationLanguages_second : &voikkoListSupportedHyphenationLanguages))
#define voikkoListSupportedSpellingLanguages (*(secondLib ? &voikkoListSupportedSpellingLanguages_second : &voikkoListSupportedSpellingLanguages))
#define voikkoNextGrammarErrorCstr (*(secondLib ? &voikkoNextGrammarErrorCstr_second : &voikkoNextGrammarErrorCstr))
#define voikkoNextGrammarErrorUcs4 (*(secondLib ? &voikkoNextGrammarErrorUcs4_second : &voikkoNextGrammarErrorUcs4))
#define voikkoNextSentenceStartCstr (*(secondLib ? &voikkoNextSentenceStartCstr_second : &voikkoNextSentenceStartCstr))
#define voikkoNextSentenceStartUcs4 (*(secondLib ? &voikkoNextSentenceStartUcs4_second : &voikkoNextSentenceStartUcs4))
#define voikkoNextTokenCstr (*(secondLib ? &voikkoNextTokenCstr_second : &voikkoNextTokenCstr))
#define voikkoNextTokenUcs4 (*(secondLib ? &voikkoNextTokenUcs4_second : &voikkoNextTokenUcs4))
#define voikkoSetBooleanOption (*(secondLib ? &voikkoSetBooleanOption_second : &voikkoSetBooleanOption))
#define voikkoSetIntegerOption (*(secondLib ? &voikkoSetIntegerOption_second : &voikkoSetIntegerOption))
#define voikkoSpellCstr (*(secondLib ? &voikkoSpellCstr_second : &voikkoSpellCstr))
#define voikkoSpellUcs4 (*(secondLib ? &voikkoSpellUcs4_second : &voikkoSpellUcs4))
#define voikkoSuggestCstr (*(secondLib ? &voikkoSuggestCstr_second : &voikkoSuggestCstr))
#define voikkoSuggestUcs4 (*(secondLib ? &voikkoSuggestUcs4_second : &voikkoSuggestUcs4))
#define voikkoTerminate (*(secondLib ? &voikkoTerminate_second : &voikkoTerminate))
#define voikko_analyze_word_cstr (*(secondLib ? &voikko_analyze_word_cstr_second : &voikko_analyze_word_cstr))
#define voikko_analyze_word_ucs4 (*(secondLib ? &voikko_analyze_word_ucs4_second : &voikko_analyze_word_ucs4))
#define voikko_dict_description (*(secondLib ? &voikko_dict_description_second : &voikko_dict_description))
#define voikko_dict_language (*(secondLib ? &voikko_dict_language_second : &voikko_dict_language))
#define voikko_dict_script (*(secondLib ? &voikko_dict_script_second : &voikko_dict_script))
#define voikko_dict_variant (*(secondLib ? &voikko_dict_variant_second : &voikko_dict_variant))
#define voikko_free_dicts (*(secondLib ? &voikko_free_dicts_second : &voikko_free_dicts))
#define voikko_free_hyphenate (*(secondLib ? &voikko_free_hyphenate_second : &voikko_free_hyphenate))
#define voikko_free_mor_analysis (*(secondLib ? &voikko_free_mor_analysis_second : &voikko_free_mor_analysis))
#define voikko_free_mor_analysis_value_cstr (*(secondLib ? &voikko_free_mor_analysis_value_cstr_second : &voikko_free_mor_analysis_value_cstr))
#define voikko_free_suggest_cstr (*(secondLib ? &voikko_free_suggest_cstr_second : &voikko_free_suggest_cstr))
#define voikko_free_suggest_ucs4 (*(secondLib ? &voikko_free_suggest_ucs4_second : &voikko_free_suggest_ucs4))
#define voikko_hyphenate_cstr (*(secondLib ? &voikko_hyphenate_cstr_second : &voikko_hyphenate_cstr))
#define voikko_hyphenate_ucs4 (*(secondLib ? &voikko_hyphenate_ucs4_second : &voikko_hyphenate_ucs4))
#define voikko_init (*(secondLib ? &voikko_init_second : &voikko_init))
#define voikko_init_with_path (*(secondLib ? &voikko_init_with_path_second : &voikko_init_with_path))
#define voikko_list_dicts (*(secondLib ? &voikko_list_dicts_second : &voikko_list_dicts))
#define voikko_mor_analysis_keys (*(secondLib ? &voikko_mor_analysis_keys_second : &voikko_mor_analysis_keys))
#define voikko_mor_analysis_value_cstr (*(secondLib ? &voikko_mor_analysis_value_cstr_second : &voikko_mor_analysis_value_cstr))
#define voikko_mor_analysis_value_ucs4 (*(secondLib ? &voikko_mor_analysis_value_ucs4_second : &voikko_mor_analysis_value_ucs4))
#define voikko_next_grammar_error_cstr (*(secondLib ? &voikko_next_grammar_error_cstr_second : &voikko_next_grammar_error_cstr))
#define voikko_next_grammar_error_ucs4 (*(secondLib ? &voikko_next_grammar_error_ucs4_second : &voikko_next_grammar_error_ucs4))
#define voikko_next_sentence_start_cstr (*(secondLib ? &voikko_next_sentence_start_cstr_second : &voikko_next_sentence_start_cstr))
#define voikko_next_sentence_start_ucs4 (*(secondLib ? &voikko_next_sentence_start_ucs4_second : &voikko_next_sentence_start_ucs4))
#define voikko_next_token_cstr (*(secondLib ? &voikko_next_token_cstr_second : &voikko_next_token_cstr))
#define voikko_set_bool_option (*(secondLib ? &voikko_set_bool_option_second : &voikko_set_bool_option))
#define voikko_set_int_option (*(secondLib ? &voikko_set_int_option_second : &voikko_set_int_option))
#define voikko_set_string_option (*(secondLib ? &voikko_set_string_option_second : &voikko_set_string_option))
#define voikko_spell_cstr (*(secondLib ? &voikko_spell_cstr_second : &voikko_spell_cstr))
#define voikko_spell_ucs4 (*(secondLib ? &voikko_spell_ucs4_second : &voikko_spell_ucs4))
#define voikko_suggest_cstr (*(secondLib ? &voikko_suggest_cstr_second : &voikko_suggest_cstr))
#define voikko_suggest_ucs4 (*(secondLib ? &voikko_suggest_ucs4_second : &voikko_suggest_ucs4))
#define voikko_terminate (*(secondLib ? &voikko_terminate_second : &voikko_terminate))
#endif
