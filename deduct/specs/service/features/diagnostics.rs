//! Contracts of crates/service/src/features/diagnostics.rs: both ways to get diagnostics answer what the checker says now.
impl LanguageService {
    fn pull_diagnostics(&self, params: DocumentDiagnosticParams) -> DocumentDiagnosticReportResult {
        let items = checker::check(self, self.uri(params.text_document.uri));
        DocumentDiagnosticReportResult::Report(DocumentDiagnosticReport::Full(RelatedFullDocumentDiagnosticReport {
            related_documents: None,
            full_document_diagnostic_report: FullDocumentDiagnosticReport { result_id: None, items: items },
        }))
    }

    fn publish_diagnostics(&self, uri: Uri) -> PublishDiagnosticsParams {
        PublishDiagnosticsParams { uri: uri, diagnostics: checker::check(self, self.uri(uri)), version: None }
    }
}
