use std::collections::HashMap;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicU8, Ordering};
use std::sync::{Arc, Mutex};

use futures::channel::mpsc;
use futures::future::{AbortHandle, Abortable};
use serde::{Serialize, de::DeserializeOwned};
use serde_json::Value;

use crate::client::Client;
use crate::jsonrpc::{Error, ErrorCode, Id, Response, Result};
use crate::lsp_types::*;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
#[repr(u8)]
pub(crate) enum State {
    Uninitialized,
    Initializing,
    Initialized,
    ShutDown,
    Exited,
}

#[derive(Clone, Debug, Default)]
pub(crate) struct SharedState(Arc<AtomicU8>);

impl SharedState {
    pub(crate) fn get(&self) -> State {
        match self.0.load(Ordering::SeqCst) {
            0 => State::Uninitialized,
            1 => State::Initializing,
            2 => State::Initialized,
            3 => State::ShutDown,
            _ => State::Exited,
        }
    }

    pub(crate) fn set(&self, state: State) {
        self.0.store(state as u8, Ordering::SeqCst);
    }
}

/// The methods of a language server that air implements.
pub trait LanguageServer: Send + Sync + 'static {
    fn initialize(&self, params: InitializeParams) -> impl Future<Output = Result<InitializeResult>> + Send;
    fn shutdown(&self) -> impl Future<Output = Result<()>> + Send;

    fn initialized(&self, _: InitializedParams) -> impl Future<Output = ()> + Send {
        async {}
    }
    fn did_change_workspace_folders(&self, _: DidChangeWorkspaceFoldersParams) -> impl Future<Output = ()> + Send {
        async {}
    }
    fn did_change_configuration(&self, _: DidChangeConfigurationParams) -> impl Future<Output = ()> + Send {
        async {}
    }
    fn did_change_watched_files(&self, _: DidChangeWatchedFilesParams) -> impl Future<Output = ()> + Send {
        async {}
    }
    fn did_open(&self, _: DidOpenTextDocumentParams) -> impl Future<Output = ()> + Send {
        async {}
    }
    fn did_change(&self, _: DidChangeTextDocumentParams) -> impl Future<Output = ()> + Send {
        async {}
    }
    fn did_save(&self, _: DidSaveTextDocumentParams) -> impl Future<Output = ()> + Send {
        async {}
    }
    fn did_close(&self, _: DidCloseTextDocumentParams) -> impl Future<Output = ()> + Send {
        async {}
    }
    fn formatting(&self, _: DocumentFormattingParams) -> impl Future<Output = Result<Option<Vec<TextEdit>>>> + Send {
        async { Err(method_not_found()) }
    }
    fn range_formatting(
        &self,
        _: DocumentRangeFormattingParams,
    ) -> impl Future<Output = Result<Option<Vec<TextEdit>>>> + Send {
        async { Err(method_not_found()) }
    }
}

pub(crate) type Answer = Pin<Box<dyn Future<Output = Option<Response>> + Send>>;
type Handler<S> = Arc<dyn Fn(Arc<S>, Value) -> Result<Pin<Box<dyn Future<Output = Result<Value>> + Send>>> + Send + Sync>;

/// An async method of `&S` with one parameter.
pub trait Method<S, P, R>: Clone + Send + Sync + 'static {
    type Future: Future<Output = Result<R>> + Send;
    fn invoke(&self, server: S, params: P) -> Self::Future;
}

impl<F, Fut, S, P, R> Method<S, P, R> for F
where
    F: Fn(S, P) -> Fut + Clone + Send + Sync + 'static,
    Fut: Future<Output = Result<R>> + Send,
{
    type Future = Fut;
    fn invoke(&self, server: S, params: P) -> Fut {
        self(server, params)
    }
}

#[derive(Debug)]
pub struct ClientSocket {
    pub(crate) rx: mpsc::Receiver<Value>,
    pub(crate) client: Client,
}

pub struct LspServiceBuilder<S> {
    server: Arc<S>,
    state: SharedState,
    socket: ClientSocket,
    custom: HashMap<&'static str, Handler<S>>,
}

impl<S: LanguageServer> LspServiceBuilder<S> {
    pub fn custom_method<P, R, F>(mut self, name: &'static str, callback: F) -> Self
    where
        P: DeserializeOwned + Send + 'static,
        R: Serialize + Send + 'static,
        F: for<'a> Method<&'a S, P, R>,
    {
        let handler: Handler<S> = Arc::new(move |server, params| {
            let params: P = from_params(params)?;
            let callback = callback.clone();
            Ok(Box::pin(async move {
                let result = callback.invoke(&server, params).await?;
                Ok(serde_json::to_value(result).unwrap())
            }))
        });
        self.custom.insert(name, handler);
        self
    }

    pub fn finish(self) -> (LspService<S>, ClientSocket) {
        let service = LspService { server: self.server, state: self.state, custom: self.custom, running: Arc::default() };
        (service, self.socket)
    }
}

pub struct LspService<S> {
    server: Arc<S>,
    pub(crate) state: SharedState,
    custom: HashMap<&'static str, Handler<S>>,
    running: Arc<Mutex<HashMap<Id, AbortHandle>>>,
}

impl<S: LanguageServer> LspService<S> {
    pub fn build<F: FnOnce(Client) -> S>(init: F) -> LspServiceBuilder<S> {
        let state = SharedState::default();
        let (tx, rx) = mpsc::channel(1);
        let client = Client::new(tx, state.clone());
        let server = Arc::new(init(client.clone()));
        LspServiceBuilder { server, state, socket: ClientSocket { rx, client }, custom: HashMap::new() }
    }

    /// The answer to one request or notification.
    pub(crate) fn call(&self, method: String, params: Option<Value>, id: Option<Id>) -> Answer {
        let refuse = |error: Error| -> Answer { Box::pin(std::future::ready(id.clone().map(|id| Response::from_error(id, error)))) };
        let state = self.state.get();
        match method.as_str() {
            "$/cancelRequest" => {
                if let Some(id) = params.and_then(|p| serde_json::from_value(p.get("id")?.clone()).ok())
                    && let Some(handle) = self.running.lock().unwrap().get::<Id>(&id)
                {
                    handle.abort();
                }
                return Box::pin(std::future::ready(None));
            }
            "exit" => {
                self.state.set(State::Exited);
                for (_, handle) in self.running.lock().unwrap().drain() {
                    handle.abort();
                }
                return Box::pin(std::future::ready(None));
            }
            "initialize" => {
                if state != State::Uninitialized {
                    return refuse(Error::new(ErrorCode::InvalidRequest, "Invalid request"));
                }
            }
            _ => match state {
                State::Initialized => {}
                State::ShutDown => return refuse(Error::new(ErrorCode::InvalidRequest, "Invalid request")),
                _ => return refuse(Error::new(ErrorCode::ServerError(-32002), "Server not initialized")),
            },
        }
        let server = self.server.clone();
        macro_rules! request {
            ($f:ident) => {
                match from_params(params.unwrap_or_default()) {
                    Ok(params) => boxed(async move { server.$f(params).await.map(|r| serde_json::to_value(r).unwrap()) }),
                    Err(error) => return refuse(error),
                }
            };
        }
        macro_rules! notification {
            ($f:ident) => {
                match from_params(params.unwrap_or_default()) {
                    Ok(params) => boxed(async move {
                        server.$f(params).await;
                        Ok(Value::Null)
                    }),
                    Err(error) => {
                        tracing::error!("Invalid parameters of {method}: {error}");
                        return refuse(error);
                    }
                }
            };
        }
        let work = match method.as_str() {
            "initialize" => {
                let work = request!(initialize);
                self.state.set(State::Initializing);
                let state = self.state.clone();
                boxed(async move {
                    let out = work.await;
                    state.set(if out.is_ok() { State::Initialized } else { State::Uninitialized });
                    out
                })
            }
            "shutdown" => {
                if let Some(params) = params {
                    return refuse(Error::new(ErrorCode::InvalidParams, format!("Unexpected params: {params}")));
                }
                self.state.set(State::ShutDown);
                boxed(async move { server.shutdown().await.map(|()| Value::Null) })
            }
            "textDocument/formatting" => request!(formatting),
            "textDocument/rangeFormatting" => request!(range_formatting),
            "initialized" => notification!(initialized),
            "textDocument/didOpen" => notification!(did_open),
            "textDocument/didChange" => notification!(did_change),
            "textDocument/didSave" => notification!(did_save),
            "textDocument/didClose" => notification!(did_close),
            "workspace/didChangeWorkspaceFolders" => notification!(did_change_workspace_folders),
            "workspace/didChangeConfiguration" => notification!(did_change_configuration),
            "workspace/didChangeWatchedFiles" => notification!(did_change_watched_files),
            other => match self.custom.get(other) {
                Some(handler) => match handler(server, params.unwrap_or_default()) {
                    Ok(work) => work,
                    Err(error) => return refuse(error),
                },
                None => return refuse(method_not_found()),
            },
        };
        let Some(id) = id else {
            return Box::pin(async move {
                let _ = work.await;
                None
            });
        };
        let (handle, registration) = AbortHandle::new_pair();
        let running = self.running.clone();
        running.lock().unwrap().insert(id.clone(), handle);
        Box::pin(async move {
            let out = Abortable::new(work, registration).await;
            running.lock().unwrap().remove(&id);
            let body = out.unwrap_or_else(|_| Err(Error::new(ErrorCode::RequestCancelled, "Canceled")));
            Some(Response::from_parts(id, body))
        })
    }
}

fn boxed<F>(future: F) -> Pin<Box<dyn Future<Output = Result<Value>> + Send>>
where
    F: Future<Output = Result<Value>> + Send + 'static,
{
    Box::pin(future)
}

fn method_not_found() -> Error {
    Error::new(ErrorCode::MethodNotFound, "Method not found")
}

fn from_params<P: DeserializeOwned>(params: Value) -> Result<P> {
    if params.is_null() {
        return Err(Error::new(ErrorCode::InvalidParams, "Missing params field"));
    }
    serde_json::from_value(params).map_err(|e| Error::new(ErrorCode::InvalidParams, e.to_string()))
}
