use std::collections::HashMap;
use std::sync::atomic::{AtomicI64, Ordering};
use std::sync::{Arc, Mutex};

use futures::SinkExt;
use futures::channel::{mpsc, oneshot};
use serde_json::{Value, json};

use crate::jsonrpc::{Error, ErrorCode, Id, Response, Result};
use crate::lsp_types::notification::{self, Notification};
use crate::lsp_types::request::{self, Request};
use crate::lsp_types::*;
use crate::service::{SharedState, State};

#[derive(Debug)]
pub(crate) struct Inner {
    tx: mpsc::Sender<Value>,
    next: AtomicI64,
    pub(crate) pending: Mutex<HashMap<i64, oneshot::Sender<Response>>>,
    state: SharedState,
}

/// Handle for communicating with the language client.
#[derive(Clone, Debug)]
pub struct Client {
    pub(crate) inner: Arc<Inner>,
}

impl Client {
    pub(crate) fn new(tx: mpsc::Sender<Value>, state: SharedState) -> Self {
        Self { inner: Arc::new(Inner { tx, next: AtomicI64::new(0), pending: Mutex::default(), state }) }
    }

    fn started(&self) -> bool {
        matches!(self.inner.state.get(), State::Initialized | State::ShutDown)
    }

    async fn send(&self, message: Value) -> bool {
        self.inner.tx.clone().send(message).await.is_ok()
    }

    async fn notify<N: Notification>(&self, params: N::Params) {
        self.send(json!({ "jsonrpc": "2.0", "method": N::METHOD, "params": params })).await;
    }

    /// Sends a custom notification, which is dropped unless the server is initialized.
    pub async fn send_notification<N: Notification>(&self, params: N::Params) {
        if self.started() {
            self.notify::<N>(params).await;
        } else {
            tracing::trace!("Server not initialized, suppressing message: {}", N::METHOD);
        }
    }

    /// Sends a request, and waits for the client's response.
    pub async fn send_request<R: Request>(&self, params: R::Params) -> Result<R::Result> {
        if !self.started() {
            return Err(Error::new(ErrorCode::ServerError(-32002), "Server not initialized"));
        }
        let id = self.inner.next.fetch_add(1, Ordering::Relaxed);
        let (tx, rx) = oneshot::channel();
        self.inner.pending.lock().unwrap().insert(id, tx);
        if !self.send(json!({ "jsonrpc": "2.0", "method": R::METHOD, "params": params, "id": id })).await {
            return Err(Error::new(ErrorCode::InternalError, "Internal error"));
        }
        let response = rx.await.map_err(|_| Error::new(ErrorCode::InternalError, "Internal error"))?;
        if let Some(error) = response.error() {
            return Err(error.clone());
        }
        let result = response.result().cloned().unwrap_or_default();
        serde_json::from_value(result).map_err(|e| Error::new(ErrorCode::ParseError, e.to_string()))
    }

    pub(crate) fn respond(&self, response: Response) {
        if let Id::Number(id) = response.id()
            && let Some(tx) = self.inner.pending.lock().unwrap().remove(id)
        {
            let _ = tx.send(response);
        }
    }

    pub async fn log_message<M: std::fmt::Display>(&self, typ: MessageType, message: M) {
        self.notify::<notification::LogMessage>(LogMessageParams { typ, message: message.to_string() }).await;
    }

    pub async fn configuration(&self, items: Vec<ConfigurationItem>) -> Result<Vec<Value>> {
        self.send_request::<request::WorkspaceConfiguration>(ConfigurationParams { items }).await
    }

    pub async fn register_capability(&self, registrations: Vec<Registration>) -> Result<()> {
        self.send_request::<request::RegisterCapability>(RegistrationParams { registrations }).await
    }

    pub async fn publish_diagnostics(&self, uri: Url, diagnostics: Vec<Diagnostic>, version: Option<i32>) {
        self.send_notification::<notification::PublishDiagnostics>(PublishDiagnosticsParams { uri, diagnostics, version })
            .await;
    }
}
