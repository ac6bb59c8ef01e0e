export class FetchHttpHandler {}
