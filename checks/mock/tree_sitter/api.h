/* Stand-in for the part of tree-sitter's C interface a parser of declarations and calls may use; the parser is in M01.cpp. */
#pragma once
#include <stdbool.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef struct TSLanguage TSLanguage;
typedef struct TSParser TSParser;
typedef struct TSTree TSTree;
typedef struct TSPoint { uint32_t row; uint32_t column; } TSPoint;
typedef struct TSNode { uint32_t context[4]; const void* id; const TSTree* tree; } TSNode;
TSParser* ts_parser_new(void); void ts_parser_delete(TSParser*); bool ts_parser_set_language(TSParser*, const TSLanguage*);
TSTree* ts_parser_parse_string(TSParser*, const TSTree*, const char*, uint32_t); void ts_tree_delete(TSTree*); TSNode ts_tree_root_node(const TSTree*);
uint32_t ts_node_child_count(TSNode); TSNode ts_node_child(TSNode, uint32_t); uint32_t ts_node_named_child_count(TSNode); TSNode ts_node_named_child(TSNode, uint32_t); TSNode ts_node_child_by_field_name(TSNode, const char*, uint32_t);
TSNode ts_node_parent(TSNode); TSNode ts_node_next_sibling(TSNode); uint32_t ts_node_start_byte(TSNode); uint32_t ts_node_end_byte(TSNode); TSPoint ts_node_start_point(TSNode); TSPoint ts_node_end_point(TSNode);
const char* ts_node_type(TSNode); bool ts_node_is_null(TSNode); bool ts_node_is_named(TSNode); bool ts_node_is_extra(TSNode); bool ts_node_has_error(TSNode); bool ts_node_eq(TSNode, TSNode);
TSNode ts_node_prev_sibling(TSNode); TSNode ts_node_next_named_sibling(TSNode); TSNode ts_node_prev_named_sibling(TSNode); bool ts_node_is_missing(TSNode); bool ts_node_is_error(TSNode); const char* ts_node_field_name_for_child(TSNode, uint32_t);
typedef struct TSTreeCursor { const void* tree; const void* id; uint32_t context[3]; } TSTreeCursor;
TSTreeCursor ts_tree_cursor_new(TSNode); void ts_tree_cursor_delete(TSTreeCursor*); TSNode ts_tree_cursor_current_node(const TSTreeCursor*); bool ts_tree_cursor_goto_parent(TSTreeCursor*); bool ts_tree_cursor_goto_next_sibling(TSTreeCursor*); bool ts_tree_cursor_goto_first_child(TSTreeCursor*);
#ifdef __cplusplus
}
#endif
