//! Contracts of crates/service/src/lib.rs.
impl LanguageService {
    /// from now on, `source` is the text of the document, and nothing else has changed
    fn commit(&mut self, uri: Uri, source: String) {
        self.set_source(self.uri(uri), source);
    }

    /// the legend names exactly the kinds of tokens that are reported later, in the same order
    fn initialize(&mut self, params: InitializeParams) -> InitializeResult {
        let mut kinds = IndexMap::new();
        if let Some(document) = params.capabilities.text_document {
            if let Some(client) = document.semantic_tokens {
                for it in client.token_types.iter() {
                    if let Some(kind) = spec_token_kind(it) {
                        kinds.insert(kind, it);
                    }
                }
                self.semantic_token_kinds = kinds.keys();
            }
        }
        InitializeResult {
            capabilities: ServerCapabilities {
                call_hierarchy_provider: Some(CallHierarchyServerCapability::Simple(true)),
                code_action_provider: Some(CodeActionProviderCapability::Options(
                    CodeActionOptions {
                        code_action_kinds: Some(vec![
                            CodeActionKind::QUICKFIX,
                            CodeActionKind::REFACTOR_REWRITE,
                        ]),
                        resolve_provider: Some(false),
                        ..Default::default()
                    },
                )),
                completion_provider: Some(CompletionOptions {
                    trigger_characters: Some(
                        [
                            '$', '(', 'a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 'i', 'j', 'k', 'l',
                            'm', 'n', 'o', 'p', 'q', 'r', 's', 't', 'u', 'v', 'w', 'x', 'y', 'z',
                            '0', '1', '2', '3', '4', '5', '6', '7', '8', '9',
                        ]
                        .iter()
                        .map(char::to_string)
                        .collect(),
                    ),
                    all_commit_characters: Some(vec![")".into()]),
                    ..Default::default()
                }),
                definition_provider: Some(OneOf::Left(true)),
                diagnostic_provider: Some(DiagnosticServerCapabilities::Options(
                    DiagnosticOptions {
                        identifier: Some("wat".into()),
                        inter_file_dependencies: false,
                        workspace_diagnostics: false,
                        ..Default::default()
                    },
                )),
                type_definition_provider: Some(TypeDefinitionProviderCapability::Simple(true)),
                declaration_provider: Some(DeclarationCapability::Simple(true)),
                document_formatting_provider: Some(OneOf::Left(true)),
                document_range_formatting_provider: Some(OneOf::Left(true)),
                document_symbol_provider: Some(OneOf::Left(true)),
                folding_range_provider: Some(FoldingRangeProviderCapability::Simple(true)),
                hover_provider: Some(HoverProviderCapability::Simple(true)),
                inlay_hint_provider: Some(OneOf::Left(true)),
                references_provider: Some(OneOf::Left(true)),
                rename_provider: Some(OneOf::Right(RenameOptions {
                    prepare_provider: Some(true),
                    work_done_progress_options: Default::default(),
                })),
                selection_range_provider: Some(SelectionRangeProviderCapability::Simple(true)),
                semantic_tokens_provider: Some(
                    SemanticTokensServerCapabilities::SemanticTokensOptions(
                        SemanticTokensOptions {
                            legend: SemanticTokensLegend {
                                token_types: kinds.values(),
                                token_modifiers: vec![],
                            },
                            range: Some(true),
                            full: Some(SemanticTokensFullOptions::Bool(true)),
                            ..Default::default()
                        },
                    ),
                ),
                text_document_sync: Some(TextDocumentSyncCapability::Options(
                    TextDocumentSyncOptions {
                        open_close: Some(true),
                        change: Some(TextDocumentSyncKind::FULL),
                        will_save: Some(false),
                        will_save_wait_until: Some(false),
                        save: Some(TextDocumentSyncSaveOptions::Supported(false)),
                    },
                )),
                ..Default::default()
            },
            server_info: Some(ServerInfo {
                name: "WebAssembly Language Tools".into(),
                version: Some(env!("CARGO_PKG_VERSION").into()),
            }),
        }
    }
}

fn spec_token_kind(it: &SemanticTokenType) -> Option<SemanticTokenKind> {
    if it == SemanticTokenType::TYPE { Some(SemanticTokenKind::Type) }
    else if it == SemanticTokenType::PARAMETER { Some(SemanticTokenKind::Param) }
    else if it == SemanticTokenType::VARIABLE { Some(SemanticTokenKind::Var) }
    else if it == SemanticTokenType::FUNCTION { Some(SemanticTokenKind::Func) }
    else if it == SemanticTokenType::KEYWORD { Some(SemanticTokenKind::Keyword) }
    else if it == SemanticTokenType::COMMENT { Some(SemanticTokenKind::Comment) }
    else if it == SemanticTokenType::STRING { Some(SemanticTokenKind::String) }
    else if it == SemanticTokenType::NUMBER { Some(SemanticTokenKind::Number) }
    else if it == SemanticTokenType::OPERATOR { Some(SemanticTokenKind::Op) }
    else { None }
}
