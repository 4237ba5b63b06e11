use futures::channel::mpsc;
use futures::{SinkExt, StreamExt, future, stream};
use serde_json::Value;
use tokio::io::{AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt};

use crate::jsonrpc::{Error, ErrorCode, Id, Response};
use crate::service::{Answer, ClientSocket, LanguageServer, LspService, State};

const MAX_CONCURRENCY: usize = 4;
const QUEUE: usize = 100;

pub struct Server<I, O> {
    stdin: I,
    stdout: O,
    socket: ClientSocket,
}

impl<I: AsyncRead + Unpin, O: AsyncWrite> Server<I, O> {
    pub fn new(stdin: I, stdout: O, socket: ClientSocket) -> Self {
        Self { stdin, stdout, socket }
    }

    pub async fn serve<S: LanguageServer>(self, service: LspService<S>) {
        let Server { stdin, stdout, socket } = self;
        let ClientSocket { rx: requests, client } = socket;
        let (requests, stop_requests) = stream::abortable(requests);
        let (mut responses_tx, responses_rx) = mpsc::channel::<Value>(0);
        let (mut tasks_tx, tasks_rx) = mpsc::channel::<Answer>(QUEUE);

        let run_tasks = {
            let mut responses = responses_tx.clone();
            async move {
                let mut done = tasks_rx.buffer_unordered(MAX_CONCURRENCY).filter_map(future::ready);
                while let Some(response) = done.next().await {
                    if responses.send(serde_json::to_value(response).unwrap()).await.is_err() {
                        break;
                    }
                }
            }
        };

        let write_output = async move {
            let mut stdout = std::pin::pin!(stdout);
            let mut messages = stream::select(responses_rx, requests);
            while let Some(message) = messages.next().await {
                let body = message.to_string();
                let framed = format!("Content-Length: {}\r\n\r\n{body}", body.len());
                if stdout.write_all(framed.as_bytes()).await.is_err() || stdout.flush().await.is_err() {
                    break;
                }
            }
        };

        let read_input = async move {
            let mut stdin = Frames { stdin, buffer: vec![] };
            while let Some(message) = stdin.next().await {
                match message {
                    Ok(Value::Object(mut message)) if message.get("method").is_some_and(Value::is_string) => {
                        let Some(Value::String(method)) = message.remove("method") else { unreachable!() };
                        let id = message.remove("id").and_then(|id| serde_json::from_value(id).ok());
                        let task = service.call(method, message.remove("params"), id);
                        if tasks_tx.send(task).await.is_err() || service.state.get() == State::Exited {
                            break;
                        }
                    }
                    Ok(message) => match serde_json::from_value::<Response>(message) {
                        Ok(response) => client.respond(response),
                        Err(_) => {
                            let error = Error::new(ErrorCode::InvalidRequest, "Invalid request");
                            let _ = responses_tx.send(serde_json::to_value(Response::from_error(Id::Null, error)).unwrap()).await;
                        }
                    },
                    Err(error) => {
                        tracing::error!("failed to decode message: {error}");
                        let error = Error::new(ErrorCode::ParseError, error);
                        let _ = responses_tx.send(serde_json::to_value(Response::from_error(Id::Null, error)).unwrap()).await;
                    }
                }
            }
            tasks_tx.disconnect();
            responses_tx.disconnect();
            stop_requests.abort();
            // what waits for an answer of the client waits no longer
            client.inner.pending.lock().unwrap().clear();
        };

        futures::join!(write_output, read_input, run_tasks);
    }
}

/// Messages behind `Content-Length` headers.
struct Frames<I> {
    stdin: I,
    buffer: Vec<u8>,
}

impl<I: AsyncRead + Unpin> Frames<I> {
    async fn next(&mut self) -> Option<Result<Value, String>> {
        loop {
            if let Some(end) = self.buffer.windows(4).position(|w| w == b"\r\n\r\n") {
                let headers = String::from_utf8_lossy(&self.buffer[..end]).into_owned();
                let length = headers.split("\r\n").find_map(|line| {
                    let (name, value) = line.split_once(':')?;
                    if name.trim().eq_ignore_ascii_case("content-length") { value.trim().parse::<usize>().ok() } else { None }
                });
                let Some(length) = length else {
                    self.buffer.drain(..end + 4);
                    return Some(Err("missing required `Content-Length` header".into()));
                };
                let start = end + 4;
                while self.buffer.len() < start + length {
                    if !self.fill().await {
                        return None;
                    }
                }
                let body: Vec<u8> = self.buffer[start..start + length].to_vec();
                self.buffer.drain(..start + length);
                return Some(serde_json::from_slice(&body).map_err(|e| e.to_string()));
            }
            if !self.fill().await {
                return None;
            }
        }
    }

    async fn fill(&mut self) -> bool {
        let mut chunk = [0; 8192];
        match self.stdin.read(&mut chunk).await {
            Ok(0) | Err(_) => false,
            Ok(n) => {
                self.buffer.extend_from_slice(&chunk[..n]);
                true
            }
        }
    }
}
